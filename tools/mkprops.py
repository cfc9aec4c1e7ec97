import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    a['observe_at']=observe or []
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
RS='rf/rfstream.py'; DC='rf/deconvolve.py'; SM='rf/simple_model.py'; UT='rf/util.py'; BA='rf/batch.py'; PR='rf/profile.py'; HA='rf/harmonics.py'; IM='rf/imaging.py'

p('C01','Metadata and waveforms survive write and read in SAC, SH/Q and HDF5',
 'For every trace, all headers of the documented mapping table that are set, together with network, station, location, channel, start time, sampling rate and samples, are the same (within the resolution of the file format) after writing with RFStream.write or RFTrace.write and reading with read_rf, in SAC, SH/Q and HDF5 and over any chain of these formats; HDF5 additionally keeps all other entries such as event_id, slowness_before_moveout and processing. Each header is stored in the header field of the documented table, headers which are not set stay unset, and values which are updated after reading overwrite the old ones in the next file. With sh_compat=True a Q file has no COMMENT field and loses only the headers stored therein. Fields of SAC and Q files written by other programs are read according to the same table, whatever their comment contains. Reading parts of an HDF5 file, selected by station and event, gives exactly the traces of that station and event.',
 ['inputs','histories'],'all streams (any subset of headers, header values, ids, sampling rates, sample data, stream types rf, profile, stack, harmonics and plain) and all chains of write/read/modify operations over the three formats',
 'test_io_header* write one example stream with one set of header values once per format; values near the limits, subsets of headers, several generations and format chains are never tried.',
 [RS],[('header mapping tables',RS+':_HEADERS/_FORMATHEADERS'),('header read and write functions',RS+':RFTrace._read_format_specific_header/_write_format_specific_header'),('station code trick for Q and H5 index',RS+':RFStream.write')],
 observe=['files written (read back with plain ObsPy)','streams returned by read_rf'])
p('C02','Writing does not alter the stream in memory or global settings, even on failure',
 'After RFStream.write or RFTrace.write returns or raises, waveforms, seed ids, times and all rf related header entries of the traces in memory are the same as before the call, and the global index of the HDF5 plugin is the same as before the call. A stream can therefore be written several times and to several formats, also after a failed attempt (for example because of a header value which cannot be stored), with the same file contents as if the previous writes had not happened. Nothing is written for an empty stream.',
 ['histories','fault_sequences'],'all sequences of writes to Q, SAC and H5, with a failure injected at any of the file operations of a write (missing directory, unsupported format, unwritable value, exception in the plugin)',
 'The tests write a stream and compare with what is read; they never inspect the stream afterwards, nor let a write fail.',
 [RS],[('restore station codes and H5 index',RS+':RFStream.write')],[('obspyh5._INDEX','global index pattern of the H5 plugin','obspyh5'),('stats.station','temporarily holds the full id for Q files',RS+':RFStream.write')],
 observe=['stream before and after each write','obspyh5._INDEX','files'])
p('C03','rfstats gives the correct geometry, ray parameters and onset',
 'For every event and station rfstats stores the event headers of the preferred origin and magnitude (first ones if none is preferred; depth in km), the station coordinates, the WGS84 back azimuth from station to event, the WGS84 distance divided by 111.2 km, and slowness, incidence angle and onset (event time plus travel time) of the first arrival (with a warning if there are several) of the given phase in the given travel time model, plus phase. With pp_depth given, the piercing point of the converted wave (S for P receiver functions, P for S receiver functions, or pp_phase) is stored as well; the same results are obtained from event and station objects, from one of these combined with a stats object, from a stats object alone and from a stream.',
 ['inputs','configurations'],'all event and station coordinates (including poles and the date line), depths, origin/magnitude configurations, phases, travel time models and calling conventions',
 'test_rfstats checks a single event-station pair with loose tolerances (0.1 deg distance, 10 s onset).',
 [RS],[('event and station getters',RS+':obj2stats'),('distance, azimuth and TauP arrivals',RS+':rfstats')],observe=['return value and stats of rfstats'])
p('C04','rfstats keeps exactly the events inside the distance range',
 'rfstats returns None if and only if the epicentral distance is outside of the closed interval dist_range, where dist_range defaults to 30-90 degrees for phase P and 50-85 degrees for phase S, has to be specified for any other phase (otherwise ValueError), and does not restrict the distance if it is None. Called with a stream it keeps exactly the traces inside the interval, in order and with unchanged waveforms, and returns the same stream object. Events without origin, coordinate or magnitude, and distances without arrival, raise an exception instead of producing values.',
 ['inputs','configurations'],'all distances around the interval limits, all intervals, phases and mixtures of traces inside and outside the interval',
 'The only stream tested has all 13 events and a single default interval; limits, None, other phases and errors are not tested.',
 [RS],[('dist_range handling',RS+':rfstats')],observe=['return values, exceptions and remaining traces'])
p('C05','trim2 and slice2 cut exactly the requested window relative to a reference time',
 'trim2 and slice2 select for each trace the samples of the window given by UTC times, by seconds relative to a given UTC time or by seconds relative to the time header with the given name (for example onset), exactly as ObsPy\'s trim and slice select them for the corresponding absolute times, where None leaves a side open. All other headers and the sample values are kept; traces without any remaining sample are dropped (slice2: unless keep_empty_traces is set). trim2 works in place and returns the stream; slice2 leaves the stream unchanged and returns a new RFStream. If the reference header is missing in a trace an exception is raised instead of cutting another window.',
 ['inputs'],'all windows (empty, partially or fully outside, negative, reversed order of kinds of times), reference times, sampling rates, sub-sample offsets and additional arguments (pad, fill_value, nearest_sample)',
 'test_trim2 and test_slice2 use one stream and a few windows which are all inside of the data.',
 [RS],[('conversion of seconds to UTC',RS+':RFTrace._seconds2utc'),('trim2, slice2',RS+':RFStream.trim2/slice2')],observe=['traces after the call'])
p('C06','Deconvolution recovers delay, polarity and amplitude of converted phases',
 'If a response component consists of scaled and delayed copies of the source wavelet, then deconvolution with any of the methods time, waterlevel (freq), iterative and multitaper gives a receiver function on the unchanged time axis with peaks at the delays of these copies relative to the onset (one sample tolerance), with the polarity and relative amplitude of the copies, and a source component peak of amplitude 1 at the onset. This holds for positive and negative delays, all source windows which contain the wavelet, all sampling rates and all positions of the onset, and scaling the input by a common positive factor does not change the result.',
 ['inputs','configurations'],'all wavelets, delays, amplitudes, sampling rates, trace lengths, onset positions (also between samples), source windows and methods',
 'The tests use a few fixed synthetic streams and check the position of the L and Q peak only for some methods and windows.',
 [DC],[('source window and time shift',DC+':deconvolve'),('methods',DC+':deconv_time/deconv_waterlevel/deconv_iterative/deconv_multitaper')],observe=['streams before and after deconvolution'])
p('C07','Time domain deconvolution is the documented damped least squares solution',
 'The result of deconv_time is RF = (STS + spiking*I)^-1 STR, with STS the autocorrelation matrix of the source normalised by its zero lag value, and STR the cross-correlation vector of response and source for the given shift, for all lengths of source, response and result, all shifts and all spiking values. The result is linear in the response, normalised to a maximum absolute value of 1 of the trace with index normalize (not at all for None), is a single array for a single response, and does not depend on the Toeplitz solver.',
 ['inputs','configurations'],'all source and response arrays, odd and even lengths, length, shift, spiking, normalize and solver values',
 'test_deconvolution_of_convolution checks some even-length configurations with a tolerance for the peak position only.',
 [DC],[('auto- and cross-correlation',DC+':_acorrt/_xcorrt'),('solution',DC+':deconv_time')],observe=['return value of deconv_time'])
p('C08','Waterlevel deconvolution follows the documented spectral division',
 'The result of deconv_waterlevel is the inverse Fourier transform of R*conj(S)/max(|S|^2, waterlevel*max|S|^2) times a Gaussian with standard deviation gauss (in Hz, response exp(-0.5) at that frequency; none if gauss is None) shifted such that zero delay is at tshift. Results have the requested length, are normalised to a maximum of 1 of the result with index normalize (or of the deconvolved source for \'src\', or not at all for None), single responses give a single array, and return_info returns additionally the documented quantities consistent with the results.',
 ['inputs','configurations'],'all source and response arrays, lengths, nfft, waterlevel, gauss, tshift, sampling rate and normalize values',
 'The tests run the method with default settings on a few streams and check the peak position.',
 [DC],[('spectral division',DC+':deconv_waterlevel'),('filters',DC+':_gauss_filter/_phase_shift_filter')],observe=['return value of deconv_waterlevel'])
p('C09','Iterative deconvolution is a greedy, monotone and bounded spike fit',
 'deconv_iterative explains the Gauss-filtered response by a train of spikes convolved with the source where each spike has the lag of the largest absolute cross-correlation with the remaining signal and its least squares amplitude: the recorded misfit never increases, is the misfit of the spike train, and each component stops at the first improvement below minderr (in percent) or after itmax spikes, the reported iteration count being the number of spikes. Each component is treated independently, no spikes before the begin of the output window (with mute_shift before zero delay) are allowed, and the output has the length of the response with zero delay at tshift.',
 ['inputs','configurations'],'all sources, responses, lengths, sampling rates, tshift, gauss, itmax, minderr, mute_shift and normalize values',
 'The tests run the method with default settings on a few streams and check the peak position.',
 [DC],[('iteration',DC+':deconv_iterative')],observe=['return value of deconv_iterative and stats.iterations'])
p('C10','Multitaper deconvolution follows the published noise-damped estimator',
 'deconv_multitaper returns the Gauss-filtered and shifted inverse transform of sum_k S_k^* D_k / (sum_k |S_k|^2 + noise power), with S_k and D_k the sums of the Slepian-windowed spectra of demeaned and detrended source and response using overlapping windows of length T, and the noise power estimated in the same way from the noise arrays. Each component uses its own noise, results are normalised to a maximum absolute value of 1 of the result with index normalize (not at all for None), and stronger noise never increases the unnormalised response at any frequency. If no noise is given, noise is taken from the data before the onset; a given noise stream is used instead, and is not modified.',
 ['inputs','configurations'],'all sources, responses, noises, sampling rates, K, tband, T, olap, gauss, tshift and normalize values',
 'The tests run the method with default settings on a few streams and check the peak position.',
 [DC],[('tapered spectra, noise and division',DC+':deconv_multitaper'),('noise window',DC+':deconvolve')],observe=['return value of deconv_multitaper'])
p('C11','deconvolve selects source, responses, window and normalisation as documented',
 'deconvolve uses the one trace whose component code is in source_components as source (any other number of source traces raises ValueError), and returns exactly the traces whose component code is in response_components (default all; none or more than three raise ValueError), in order and with their ids, start times, lengths, sampling rates and headers, apart from the onset, which is moved to the nearest sample. The source is cut to the window winsrc relative to the onset, padded with zeros and cosine tapered, zero delay is at the onset in the result, and results are normalised by the source result if the source is among the responses, otherwise by the first response, unless normalize is given. A custom function gets the responses, the prepared source and tshift, and its result is returned; the source trace is not modified unless it is a response.',
 ['inputs','configurations'],'all combinations of component codes, trace orders, source and response component choices, windows, onset positions and methods',
 'The tests use the defaults with the standard component order, plus one custom function.',
 [DC,RS],[('component selection and source preparation',DC+':deconvolve')],observe=['returned traces','arguments passed to the custom function'])
p('C12','rf() equals the documented sequence of processing steps',
 'RFStream.rf gives the same result as applying by hand filter, trim relative to onset, decimation of the traces with higher sampling rate to the requested rate (given as integer or float, also for rates slightly off because of clock drift or file formats), rotation of each event-station group (traces with the same network, station, location, band and onset) with its own back azimuth and inclination, negation of Q components, deconvolution of each group with the source component L or Z (P) or Q or R (S), and, for S receiver functions, mirroring of data and onset in time; each step is done if and only if the corresponding option is given. The traces get type rf and the method of the receiver function, which is taken from the phase header if it is not given, an invalid or missing method raises ValueError, and the stream holds exactly the traces returned by the deconvolution.',
 ['inputs','configurations'],'all option combinations and streams (P and S, two and three components, several events and stations)',
 'The tests run the default pipeline on the example data and check that it does not fail.',
 [RS],[('pipeline',RS+':RFStream.rf')],observe=['stream after rf()'])
p('C13','Receiver functions of an event do not depend on other events or absolute time',
 'In rf, deconvolve per group, moveout and ppoints, the result for a given event and station is the same whether it is processed alone or in one stream with other events and stations, with any order of traces in the stream; the order of the traces is kept. Shifting all times of an event by a constant (a whole number of samples) shifts the times of the result only.',
 ['inputs','histories'],'all mixtures and permutations of events, stations and components and all time shifts',
 'The tests process one station with one order of traces.',
 [RS,UT,SM],[('grouping by id and onset',UT+':IterMultipleComponents'),('rf',RS+':RFStream.rf')],observe=['results of joint, separate and permuted processing'])
p('C14','Wave field separation puts converted energy on Q/R with documented polarity',
 'For a synthetic plane P wave arriving from any back azimuth and incidence angle, followed by a converted SV wave (particle motion perpendicular to the ray in the vertical plane), rf with rotation to LQT shows the conversion on the Q component and not on L or T, and with rotation to RT on R and not on T, in both cases positive for a Moho-like (positive velocity) contrast, with the SH motion on T only. For S receiver functions the Sp conversion before the S wave appears on the L component at positive time.',
 ['inputs'],'all back azimuths, incidence angles, delays and amplitudes',
 'test_polarity_R_component compares R and Q for one example event; T leakage, azimuth quadrants and S receiver functions are not checked.',
 [RS,DC],[('rotation, sign and mirroring',RS+':RFStream.rf')],observe=['stream after rf()'])
p('C15','Moveout correction maps every conversion depth to its reference delay time',
 'After moveout with phase, reference slowness and model, signal which was at the delay time of a conversion at depth d for the slowness of its trace is at the delay time of depth d for the reference slowness (within one sample), for direct conversions and multiples of P and S receiver functions and for all traces of the stream independently; the direct wave stays at the onset. Times on the other side of the onset, start time, length, onset and ids are unchanged, a trace that has already the reference slowness is unchanged, samples after the last mapped sample are zero and otherwise no value outside the range of the data and no NaN is created, and the headers moveout, slowness_before_moveout and slowness are set; an onset outside of the data raises ValueError.',
 ['inputs','configurations','histories'],'all slownesses, reference slownesses (changing between calls), phases, models, sampling rates, onset positions and streams',
 'test_moveout_vs_XY compares a single trace with stored results at a tolerance, for one reference slowness per phase.',
 [SM,RS],[('stretching of delay times',SM+':SimpleModel.stretch_delay_times'),('interpolation',SM+':SimpleModel.moveout'),('headers',RS+':RFStream.moveout')],[('t_ref cache','reference delay times per model',SM)],observe=['stream before and after moveout'])
p('C16','Delay times and model layers agree with ray theory in a layered model',
 'The delay time of a phase at depth z is the sum over layers above z of thickness times (number of P legs times P vertical slowness plus number of S legs times S vertical slowness minus twice that of the direct wave), is zero at the surface, and is NaN below the turning depth of any of the waves involved and only there. A SimpleModel accepts arrays, lists and files (with or without the fourth column), keeps the given layers, divides each interval into equal parts by the requested number of intermediate points without changing the interpolated velocities, and is the same object or an equal one each time it is loaded.',
 ['inputs'],'all velocity models, depths, slownesses and phases including multiples',
 'The tests compare with stored values of iasp91 only.',
 [SM],[('vertical slowness and delays',SM+':SimpleModel.calculate_vertical_slowness/calculate_delay_times'),('model',SM+':load_model/SimpleModel.__init__')],observe=['return values and model attributes'])
p('C17','Piercing points lie on the ray at the right distance, azimuth and depth',
 'The piercing point at depth d is located on the WGS84 great circle from the station in direction of the back azimuth, at the horizontal distance the ray with the given slowness travels (for P or S legs, multiples add up) between depth d and the surface in the model. It is stored together with the depth in the headers of each trace and ppoints returns the coordinates of all traces in order; the default phase is S for P and P for S receiver functions, and depths below the model or phases with an even number of legs raise an exception.',
 ['inputs'],'all stations (poles, date line), back azimuths, slownesses, depths, phases and models',
 'The tests compare with stored coordinates of three points and with TauP at a tolerance of 10 km or more.',
 [SM,RS],[('distance and geodesic',SM+':SimpleModel.ppoint_distance/ppoint'),('ppoints',RS+':RFStream.ppoints')],observe=['return values and pp_* headers'])
p('C18','stack returns exactly one mean trace per seed id with the metadata of that id',
 'stack returns one trace for each seed id of the stream, whose samples are the arithmetic mean of all traces with that id and no others, with the same id, sampling rate and number of samples, the onset at the same position relative to the start, and station coordinates, phase, moveout and processing of a trace with that id. The order of the traces of an id does not matter, traces of different length with the same id raise an exception, and the stream itself is not modified.',
 ['inputs'],'all streams with any number of ids and traces per id in any order',
 'No test checks the stack apart from the batch tests which check that files exist.',
 [RS],[('stack',RS+':RFStream.stack')],observe=['returned stream and original stream'])
p('C19','Profile boxes tile the profile line',
 'get_profile_boxes returns one box for each pair of neighbouring bins with the given length, the midpoint as position, its geographic midpoint on the geodesic through the starting point with the given azimuth, and a rectangle polygon of the given width which is centred on the profile line; neighbouring boxes share their edge. The first box stores starting point, azimuth, total length and width of the profile.',
 ['inputs'],'all starting points, azimuths, bin edges (negative, irregular) and widths',
 'test_profile uses one profile of a few boxes and checks the number of traces.',
 [PR],[('boxes',PR+':get_profile_boxes/_get_box')],observe=['returned boxes'])
p('C20','profile counts each receiver function once, in the box of its piercing point',
 'profile returns one trace for each box and component with at least one piercing point inside the box, whose samples are the mean of exactly the traces of that component with piercing point inside the box and whose header num is their number; traces outside of all boxes do not contribute, and no trace contributes twice. Position, length and midpoint of the box, profile parameters, onset position, phase, moveout and slowness are stored, traces are sorted by component and position, the result is the same for any order of traces and for streams or iterators of traces, and input traces are not modified. Traces of one box with different numbers of samples cannot be stacked and raise an exception.',
 ['inputs'],'all sets of piercing points and boxes, all components and orders, streams and iterators',
 'test_profile uses one profile with piercing points in a single line and checks the number of traces and one value.',
 [PR],[('binning and averaging',PR+':profile/_find_box')],observe=['returned profile stream'])
p('C21','Harmonic decomposition is the least squares fit of documented azimuthal terms',
 'harmonics returns the constant, cos, sin, cos2 and sin2 coefficients (for two components followed by the five unmodeled ones) which fit the receiver functions of all events with the given components in the least squares sense as function of back azimuth minus azim, with components of the same event paired irrespective of the order of traces, and the modeled and unmodeled sign conventions and scalars of Park and Levin for two components. Synthetic data made of such terms is recovered, methods time and freq give the same result, each output trace is labelled with its term, number and components, has the onset and length of the input, and the input is not modified; unsupported or missing components raise exceptions.',
 ['inputs','configurations'],'all back azimuth distributions, coefficients, azim, scalars, components, methods and trace orders',
 'The tests use one synthetic stream per component choice with regular back azimuths.',
 [HA],[('jacobian and solution',HA+':harmonics/decomp_one/decomp_two')],observe=['returned stream'])
p('C22','iter_event_data yields every usable event-station pair once, also under faults',
 'iter_event_data requests for each event and station available at that time with the event inside the distance range exactly one window around the onset (request_window extended by pad, defaults depending on phase), and yields for each request that returns three gap-free components exactly one stream, trimmed to request_window, with the headers of rfstats attached. If get_waveforms raises an exception, returns None, too few or too many components, or data with gaps or overlaps, or if the station has no coordinates or the ray calculation fails, then only this pair is skipped (with a warning naming event and station for failing ray calculations and unusable data, silently for missing data) and all others are still delivered, while an interrupt by the user is not taken for missing data; a progress bar is updated once per pair. iter_event_metadata lists each pair once with network, station, location, channel and origin time.',
 ['inputs','fault_sequences'],'all catalogs, inventories (several stations, locations and band codes, limited epochs) and all sequences of faults of the data source',
 'The batch tests use a data source without faults.',
 [UT],[('iterator',UT+':iter_event_data')],observe=['calls of get_waveforms','yielded streams','progress bar'])
p('C23','Component iteration partitions the stream into event-station groups',
 'IterMultipleComponents yields groups of traces that agree in seed id apart from the component and in the value of the key header, such that every trace is in exactly one group as the same trace object in the order of the stream, and exactly the groups with a number of traces allowed by number_components (integer, tuple or None for all) are yielded. Its length is the number of groups and it can be iterated several times; groups are of the class of the stream.',
 ['inputs'],'all streams, keys and number_components values',
 'There is no test of the class.',
 [UT],[('grouping',UT+':IterMultipleComponents')],observe=['yielded groups'])
p('C24','The command line pipeline gives the same results as the Python API',
 'For each configuration and format, the commands data, calc, moveout (separately or combined), stack, profile and convert write exactly one result per event and station (stack: per seed id; profile: per box and component), with the documented file names, equal to what iter_event_data, rf, moveout, stack and profile of the Python API give for the same data and options. Results of an earlier run in SAC and Q files are replaced. Conversion between Q, SAC and H5 keeps all waveforms and headers supported by both formats, and processing in one format or another gives the same receiver functions.',
 ['inputs','configurations'],'all formats, command sequences and options',
 'The batch tests check that the number of files or traces is as expected, not their content.',
 [BA],[('commands',BA+':run_commands'),('file names and writing',BA+':write'),('reading',BA+':iter_event_processed_data')],observe=['files in the output directory'])
p('C25','Configuration and command line options are applied with documented precedence',
 'Options of the command line replace options of the configuration file, lines and line ends starting with # are ignored, the phase and moveout-phase options are passed to the respective routine, boxbins is expanded to bin edges, and options given as JSON strings are parsed. Unknown options, commands given more than once, invalid configuration files and missing event, station or configuration files are reported and no result file is written; create writes the template and, for the tutorial, the example files, and the resulting configuration can be used directly.',
 ['configurations'],'all combinations of options in configuration and command line',
 'The batch tests use the tutorial configuration with a few options.',
 [BA],[('configuration',BA+':run/ConfigJSONDecoder'),('options',BA+':run_commands/run_cli')],observe=['parameters seen by the routines (via results)','files, output'])
p('C26','File access is confined to the named input and output paths',
 'Reading, writing and all batch commands create, overwrite or delete files only at the output path given by the user (and temporary files which do not remain), never modify or delete the input files, configuration, events or inventory, and leave no open output file behind. API functions which have no file argument do not write any file at all.',
 ['inputs','histories'],'all commands, formats and API functions, with existing unrelated files next to inputs and outputs',
 'The tests run in a temporary directory and check only the presence of some files.',
 [BA,RS],[('file names',BA+':write/FNAMES'),('write',RS+':RFStream.write')],observe=['audit events of the interpreter (open, remove, rename, mkdir, ...)','snapshots of directory trees'])
p('C27','Results do not depend on what has been computed before in the same process',
 'Any function of the package called with the same inputs gives the same result as in a fresh process, regardless of which functions have been called before with which parameters (caches of models, reference delay times and example data included), whether earlier calls failed, whether streams returned before have been modified by the user, and whether the same argument objects have been used in earlier calls. Calling a function twice on equal inputs gives equal results, also in another interpreter process with another hash seed. The same holds for computations on models, receiver functions and streams of its own (no plots, files and map projections) in a thread while other threads of the process do the same.',
 ['histories'],'all sequences of API calls with varying parameters, including failing ones and modification of returned objects',
 'Each test calls functions with one set of parameters; hidden state shows only in particular sequences.',
 [SM,UT,DC,RS],[('model cache',SM+':_MODEL_CACHE/SimpleModel.t_ref'),('example cache',UT+':__CACHE')],[('_MODEL_CACHE','loaded models',SM),('t_ref','reference delay times',SM),('__CACHE','example receiver functions',UT)],observe=['results of histories compared with fresh processes'])
p('C28','Functions do not modify their inputs beyond the documented in-place effects',
 'Array functions (deconv_*), stack, slice2, profile, harmonics, plot functions, obj2stats and rfstats with event and station do not modify waveforms, headers, boxes, models, options or other objects passed to them; in-place methods modify only the stream they are called on, so copies made before and options passed as keyword arguments are not affected. Results of stack, profile, harmonics and the array functions do not share sample arrays or header containers with the inputs or with each other.',
 ['inputs','histories'],'all functions and inputs, with copies, slices and read-only arrays',
 'No test looks at inputs after a call.',
 [DC,RS,PR,HA,IM],[('copies',DC+':deconvolve')],observe=['deep snapshots of the inputs before and after each call'])
p('C29','Processing steps are recorded in the headers of the resulting traces',
 'rf, deconvolve, moveout, stack, profile and harmonics append exactly one entry for the call to the processing list of every trace of the result, with the version of rf, the name of the function and all arguments with their values (defaults and keyword arguments included; for a profile latitude/longitude, azimuth and length instead of the boxes), after the entries of the steps already recorded by ObsPy or rf which are kept in order (harmonics starts a new list, rf contains also entries of the steps it performs). The entries survive the write and read cycle of HDF5.',
 ['inputs','histories'],'all sequences of processing steps and arguments',
 'test_add_processing checks one call of rf and one of harmonics with default arguments.',
 [UT],[('decorator',UT+':_add_processing_info')],observe=['stats.processing of the results'])
p('C30','Plots show the data: wiggles, scales, order, stack, headers and depth ticks',
 'plot_rf draws for each trace in stream order one line with time relative to onset and the samples scaled by scale_factor and by the global (or with trace_scale the individual) maximum, fills positive and negative parts with the given colors, shows header values in the additional axes, and the stack of the traces; plot_profile draws each trace at its box position scaled by the smallest box length, a histogram of num and depth ticks at the delay times of the moveout phase and slowness (minor ticks divide the intervals into equal depths); plot_harmonics draws the five modeled and unmodeled (or second) harmonics scaled by the respective maximum. The trim option restricts all plots to the given window, a given file name produces the file and closes the figure, and otherwise the figure is returned. Figures have the requested dimensions and resolution, vertical lines are drawn if and only if requested. The commands plot and plot-profile write one such figure per seed id, sorted by back azimuth, and per component of the profile, respectively.',
 ['inputs','configurations'],'all streams and plot options',
 'The tests only check that plotting does not fail.',
 [IM],[('plot functions',IM)],observe=['artists of the matplotlib figure'])
p('C31','Maps show stations, piercing points and profile boxes at their coordinates',
 'plot_stations, plot_ppoints and plot_profile_map draw every station (each once, also stations described without channels, labelled by its code if requested), every piercing point and every box at its own longitude and latitude into the given or a newly created map axes and return these axes, both for inventories and streams; additional keyword arguments override the default style.',
 ['inputs','configurations'],'all inventories, streams, piercing points, boxes and options',
 'The tests only check that plotting does not fail.',
 [IM],[('map functions',IM+':plot_stations/plot_ppoints/plot_profile_map')],observe=['artists of the matplotlib axes'])
p('C32','RFStream and RFTrace keep ObsPy semantics and report type and method correctly',
 'RFStream built from traces, a trace, another stream or nothing holds RFTrace objects with the same data, times and headers in the same order, and methods inherited from ObsPy (copy, select, slice, sort, trim, merge, +, append, pop, slices of the list, indexing, iteration) return RFStream and RFTrace objects. Property type is the common type header or None, method is the last letter in upper case of the common phase header or None, a warning is given for different values, and both can be set for all traces; the string representation of a trace contains id, window relative to onset, sampling rate, number of samples and the values of the headers which are set, whenever these headers hold numbers (or phase letters) as set by the package.',
 ['inputs'],'all streams and combinations of headers',
 'test_str checks that some strings are contained for one example trace.',
 [RS],[('constructor, properties, string representation',RS+':RFStream/RFTrace')],observe=['return values and warnings'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
import re
for x in P:
    n=len(re.findall(r'\.(?:\s|$)',x['statement']))
    if n>3: print(x['id'],n)

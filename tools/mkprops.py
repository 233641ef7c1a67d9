import json
def P(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
A='kinisi/analyzer.py';D='kinisi/diffusion.py';R='kinisi/parser.py';AR='kinisi/arrhenius.py'
DA='kinisi/diffusion_analyzer.py';JA='kinisi/jump_diffusion_analyzer.py';CA='kinisi/conductivity_analyzer.py'
L=[]
L.append(P('C01','A saved analysis loads back as the same analysis, at every stage of its life',
"For every history of operations on a diffusion, jump-diffusion or conductivity analysis, saving it to disk and loading the file in another process (or converting it to a dictionary and back) gives an analysis with identical data, settings and results. The restored analysis answers every further operation (analysing again, posterior prediction, saving, converting to a dictionary) exactly as the original would, so any number of save/load generations changes nothing.",
['histories','configurations','inputs'],"every sequence of construct / analyse / predict / save / load / dictionary operations, every analysis type, dimension, sub-sampling, bootstrap, intercept and covariance-model setting, before or after analysis, and any number of generations",
"The analyser test module cannot even be collected here, and the remaining tests do one dictionary round trip of one fully analysed object; no test loads a file and goes on working with it, saves a loaded analysis again, or saves one built with sub-sampling.",
[A,D,DA,JA,CA],[('HDF5 save/load of a nested dictionary','kinisi/analyzer.py save, load, _dict_to_group, _group_to_dict'),('dictionary conversion','kinisi/diffusion.py Bootstrap.to_dict/from_dict; the to_dict/from_dict of the three analyzers')],
['save, load, to_dict, from_dict and every public property of the analyzers'],[dict(name='HDF5 file',meaning='durable form of an analysis',where='kinisi/analyzer.py')]))
L.append(P('C02','A save that fails or is cut short never leaves a wrong or half-written file',
"Whatever file operation of a save meets a disk error, a full disk, a short write, an interrupt or the death of the process, the requested name afterwards either does not exist or loads as the complete analysis, no other file is changed, once the fault is gone saving works again, and a failing operation never kills the calling process. A save that returns normally always loads back completely, and a load that meets read errors or short reads either raises or returns the complete analysis, never one with different values.",
['fault_sequences','crash_points','histories'],"every file operation of every save or load as the point of failure, and every failure kind: I/O error, no space, short and torn write, interrupted call, asynchronous interrupt, process death",
"The existing tests write to a healthy disk and never fail a write, fill the disk or kill the process, so none of the failure paths is ever taken.",
[A],[('write-then-publish save','kinisi/analyzer.py Analyzer.save'),('load','kinisi/analyzer.py Analyzer.load')],
['return or exception of save/load, the directory contents, and load in a later process'],[dict(name='target file',meaning='the name the caller asked for',where='kinisi/analyzer.py Analyzer.save')]))
L.append(P('C03','A file name is written at most once and reads back what was saved under it',
"However saves and loads by several threads interleave, a save never changes a file that already exists: for each name at most one save succeeds and every other one is refused with an error. Loading a name returns exactly the analysis whose save under that name succeeded (or fails if there is none yet), and names that differ in more than their file extension, including in the directories they contain, never share a file.",
['schedules','histories','inputs'],"every interleaving of concurrent saves and loads, every sequence of saves and loads over any set of names and directories (relative, absolute, dotted), with or without pre-existing files",
"The tests use two plain file names, one thread and no existing file: neither the race between checking and writing nor dotted paths are reached.",
[A],[('refusal to overwrite','kinisi/analyzer.py Analyzer.save'),('file extension replacement','kinisi/analyzer.py Analyzer.save/load')],
['save/load results and file bytes']))
L.append(P('C04','A given random_state determines a seeded result completely',
"Every resampling or analysis step that is given a random_state returns bit-identical results in the same environment, whatever state the process-wide random generator is in, whatever ran before, whether progress is displayed, and whatever other threads do meanwhile; it does not disturb the process-wide generator. Steps given no random_state are reproduced by seeding the process-wide generator beforehand.",
['schedules','histories','configurations'],"every interleaving with other seeded or unseeded work in other threads, every prior use of the process-wide generator, every entropy source value, every analysis type and setting",
"The tests seed once and run one analysis in one thread; a dependence on ambient random state, entropy or interleaving cannot show there.",
[D],[('seeding of the walkers and the sampler','kinisi/diffusion.py Bootstrap.bootstrap_GLS'),('seeded resampling','kinisi/diffusion.py Bootstrap.sample_until_normal, _bootstrap')],
['D, D_J, sigma, intercept, flatchain, resampled distributions; the state of numpy.random']))
L.append(P('C05','An analysis step that does not finish changes nothing',
"If an analysis step (self-diffusion, jump diffusion, conductivity, posterior prediction) is interrupted, runs out of memory, or raises for any reason at any point, the analysis afterwards shows exactly the data, settings and results it showed before the step: all earlier results remain available and mutually consistent, also when saved (an interrupt that arrives only once the step has taken full effect may leave the complete new results, never a mixture). Running the step again then gives exactly what it would have given had it never been interrupted.",
['fault_sequences','crash_points','histories'],"every point of execution of every analysis step as the point of failure, for interrupts, allocation failures, failing progress output and rejected arguments, after every history of earlier steps",
"No test makes an analysis step fail, so what is left behind after Ctrl-C during sampling, or after a start time beyond the data, is never looked at.",
[D,A,DA,JA,CA],[('commit of results','kinisi/diffusion.py Bootstrap.bootstrap_GLS, diffusion, jump_diffusion, conductivity')],
['all public properties, to_dict, save and posterior_predictive after the failure'],[dict(name='analysis results',meaning='start time, covariance, chain, gradient, intercept, coefficient',where='kinisi/diffusion.py Bootstrap')]))
L.append(P('C06','Results do not depend on how a trajectory is delivered',
"For a given simulation run, the time intervals, mean-squared (total, charge) displacements with their uncertainties, displacement distributions and cell volume equal a direct evaluation from the true particle paths, whether the run arrives as ASE, pymatgen, Xdatcar, XDATCAR-file or MDAnalysis data, whole or cut into consecutive segments at any points, read in one go or in short or interrupted reads, with each atom reported (in a fixed cell) in any periodic image at any frame, and with the source left at any frame by earlier readers. Pooling replica runs equals the pooled evaluation in any order, and sub-sampling equals delivering only every k-th frame at k times the time step.",
['histories','schedules','fault_sequences','configurations'],"every route, segmentation (including empty segments), replica order, image reporting, reader position, read splitting and sub-sampling of every run that moves less than half a cell per frame",
"The tests feed three stored trajectories through one route each, uncut, and assert shapes; a segment boundary lost, a route with its own time base, or dependence on where a reader stands cannot be seen.",
[R,A,DA,JA,CA,D],[('per-source readers','kinisi/parser.py get_structure_coords_latt of the three parsers'),('segment and replica handling','kinisi/analyzer.py _from_* , _stack_trajectories, _flatten_list'),('displacements over intervals','kinisi/parser.py Parser.get_disp, correct_drift, get_disps')],
['dt, msd/mstd/mscd, their standard deviations, dr, volume']))
L.append(P('C07','A trajectory source that fails is reported, never silently shortened',
"If reading any frame or file block of a trajectory fails, or the reading is interrupted or runs out of memory, building the analysis raises; it never returns results computed from only part of the run. The caller's trajectory objects and parameters are left as they were (apart from where a reader stands), and building again once the fault is gone gives exactly the fault-free result.",
['fault_sequences','crash_points','histories'],"every frame and every file read of every kind of source as the point of failure, transient or persistent, in single, consecutive and pooled deliveries",
"All trajectories in the tests read without error, so the error paths of five kinds of source are never exercised.",
[R,A],[('frame loops of the three parsers','kinisi/parser.py get_structure_coords_latt'),('file and segment readers','kinisi/analyzer.py _from_file, _from_Xdatcar, _from_universe, _from_ase, _from_pymatgen')],
['exception or result of from_ase, from_pymatgen, from_Xdatcar, from_file, from_universe']))
L.append(P('C08','Analyses do not affect one another or their inputs',
"Analyses running in different threads, or one after another in one process, each give exactly the results they give when run alone in a fresh process, for every interleaving and every earlier history, including temperature-dependence (Arrhenius and super-Arrhenius) fits. Trajectories, arrays, charges, bounds and parameter dictionaries passed in by the caller are never modified, so they can be shared, and threads that only read or save a shared analysis see one unchanging state.",
['schedules','histories'],"every interleaving of several analyses at source-line granularity, every order and number of earlier analyses in the process, inputs shared or separate (MDAnalysis universes, whose reader holds a position, are not shared between threads)",
"The tests run single-threaded and never compare a result with the same computation in a fresh process; shared defaults and caches only show in a second, different use.",
[D,R,A,AR,DA,JA,CA],[('absence of shared mutable state','all modules; default arguments in kinisi/arrhenius.py')],
['all public properties of analyzers, parsers and Arrhenius relationships; the caller-owned inputs']))
L.append(P('C09','Posterior samples are valid for every random stream',
"For every random stream and every setting, a completed analysis holds one gradient and (if fitted) one intercept per retained sample, in the same order in all views, as many as walkers times retained steps; gradients are never negative and the coefficient is the gradient in the documented units. Given at least the default burn-in, their mean and spread agree, within sampling error, with the generalised-least-squares solution for the mean-squared displacements at or after the requested start time under the reported covariance matrix, which covers exactly those intervals, and posterior prediction draws from those samples and that covariance.",
['histories','configurations','inputs'],"every random stream (seeds and entropy), start time, intercept choice, covariance model, number of walkers, samples, burn-in and thinning, for diffusive and nearly immobile systems",
"The tests check sizes and that the mean is positive for one stream; wrong pairing, wrong regime, missing burn-in or negative gradients on other streams go unnoticed.",
[D,DA,JA,CA,A],[('likelihood and sampling','kinisi/diffusion.py Bootstrap.bootstrap_GLS'),('unit conversion','kinisi/diffusion.py diffusion, jump_diffusion, conductivity'),('prediction','kinisi/diffusion.py posterior_predictive')],
['D, D_J, sigma, intercept, flatchain, distribution, gradient, covariance matrix, posterior_predictive']))
L.append(P('C10','Resampling always stops within its declared budget and says so',
"With resampling enabled, for every random stream, however far from normal, the number of resamples at each time interval is at least the requested initial number and never exceeds the larger of that and the requested maximum by more than one batch (100), so construction always terminates. Sampling stops before the maximum only when the resampled values are not rejected by the normality test at the requested level, and a warning is given if and only if the maximum is reached.",
['histories','fault_sequences','inputs'],"every random stream including adversarial ones (constant, two-valued, heavy-tailed, alternating), every initial and maximum number of resamples and significance level",
"The tests use well-behaved random numbers with which the loop ends at once; termination on streams that never look normal is not exercised.",
[D],[('resample loop','kinisi/diffusion.py Bootstrap.sample_until_normal, _bootstrap')],
['number of resampled values per interval, draws from the random_state, warnings']))
L.append(P('C11','Analysing again replaces earlier results completely',
"After any sequence of analysis steps, reads, predictions, saves and refused calls on one analysis, everything it reports equals what a freshly built analysis reports after only the last successful step of each kind, given the same random stream. Reading properties, predicting, saving and converting to a dictionary never change what is reported afterwards.",
['histories','configurations'],"every sequence of steps with different start times, intercept choices, covariance models and sampler settings, interleaved with observations and refused calls",
"Each test analyses an object once and stops; leftovers of an earlier analysis need a second, different one to show.",
[D,A,DA,JA,CA],[('result fields rewritten by each step','kinisi/diffusion.py Bootstrap.bootstrap_GLS, diffusion, jump_diffusion, conductivity')],
['all public properties, to_dict, posterior_predictive']))
L.append(P('C14','The memory ceiling is honoured however a trajectory is delivered',
"Under every memory_limit, building a parser or analysis from a trajectory either raises MemoryError, before the displacements are computed and saying that the limit is the reason, or holds displacements that together fit within the limit (8 GB by default; each of several replicas has its own). With multi-origin sampling displacements that fit are never refused. The decision is the same for whole runs and consecutive pieces, for every route, and whatever was built or refused before in the process; a refusal changes neither the trajectory nor the parameters, and an attempt under a sufficient limit then gives exactly the result it would have given at first.",
['histories','fault_sequences','configurations'],"every sequence of memory budgets, every route, delivery, selection, interval grid and sampling","Tests never run into the limit.",[R,A],[('size estimate and refusal','kinisi/parser.py Parser.get_disps'),('handing on of the limit','kinisi/parser.py parsers of the routes, kinisi/analyzer.py _from_*')],['MemoryError or result of parsers and analyzers, size of displacements, allocated memory']))
L.append(P('C13','The covariance matrix is that of the variances, valid, conditioned as requested',
"After every completed fit (self-diffusion, jump diffusion, conductivity), from every start time, after any earlier fits, refused or interrupted calls, and saving and loading, the reported covariance matrix is real, finite and symmetric, has no negative eigenvalue (beyond rounding) and a condition number no larger than the requested cond_max (judged up to 1e12). Its element for two time intervals is the variance at the shorter one times the ratio of their numbers of independent observations (n_o), the variances being those reported, or with model=True their least-squares fit by a * dt^2 / n_o whatever the time scale of the run; it departs from that only by as much as the conditioning takes. However noisy the variances, no fit fails because of them.",
['histories','inputs'],"every set of displacements, start time, condition limit and history of fits","Tests use one matrix.",[D],[('covariance, reconditioning','kinisi/diffusion.py generate_covariance_matrix, _populate_covariance_matrix, minimum_eigenvalue_method')],['covariance_matrix, dt, msd_std (mstd_std, mscd_std)']))
L.append(P('C15','Time intervals are those requested, whatever clock the run was recorded on',
"For every time_step, step_skip and sub_sample_traj (however the time between frames is split among them), min_dt and max_dt within the run, n_steps and spacing, the time intervals are whole numbers of frames, increasing and distinct, from min_dt (default one frame) up to max_dt (default the length of the run), limits between two frames counting as the earlier one and floating-point rounding never shifting a limit. There are as many as n_steps (default 100) as far as frames in the range allow for linear spacing and at most that many for logarithmic; they are evenly spaced (linearly or logarithmically) to within one frame. The same frames on another clock give the same intervals, and the displacements reported for each interval are those over exactly that interval.",
['configurations','inputs'],"every clock, run length, range, count and spacing","Tests use one clock whose ticks are exact.",[R],[('interval grid','kinisi/parser.py Parser.__init__, get_time_intervals, get_disps'),('clock of each route','kinisi/parser.py parsers of the routes')],['dt, delta_t, displacements']))
# not applicable
L.append(P('C12','Displacements are unwrapped correctly for every cell and path',
"For every cell (orthorhombic, triclinic, fluctuating) and every path that moves less than half a cell between frames, computed displacements equal the true ones.",
['inputs'],"every trajectory and cell",
"Tests use three stored trajectories.",[R],[('TOR unwrapping','kinisi/parser.py Parser.get_disp')],['displacements']))
L.append(P('C16','Arrhenius and super-Arrhenius relations are evaluated correctly',
"For all temperatures and parameters the model functions give the diffusion coefficients of the Arrhenius and Vogel-Tammann-Fulcher equations.",
['inputs'],"all temperatures and parameters","Tests check a few values.",[AR],[('equations','kinisi/arrhenius.py arrhenius, super_arrhenius')],['arrhenius, super_arrhenius']))
L.append(P('C17','Temperature fits hold valid, consistent samples after every sequence of fits',
"For every random stream, kind of data, order of temperatures and sequence of fits (maximum likelihood, Markov chain, nested sampling, samples set by the caller), reads and refused calls, an Arrhenius or super-Arrhenius fit pairs its activation energies, pre-exponential factors and (super-Arrhenius) T0 values in one order in all views, and its distribution and extrapolations are that equation evaluated for exactly the current samples. It uses the bounds it was given (an open T0 bound is the first temperature), its samples lie within them when the fit starts within them, and with enough burn-in their mean and spread agree with the posterior for the data within sampling error. Reading and refused fits change nothing.",
['histories','configurations','inputs'],"every random stream and every history of fits, reads and refusals","Tests build fits with fixed data and look at a few attributes once.",[AR],[('views of the samples','kinisi/arrhenius.py StandardArrhenius and SuperArrhenius properties, distribution, extrapolate'),('bounds','kinisi/arrhenius.py SuperArrhenius.__init__')],['activation_energy, preexponential_factor, T0, distribution, extrapolate, flatchain, bounds']))
L.append(P('C18','Resampled distributions describe the observed displacements faithfully',
"With resampling enabled, for every random stream, the distribution at each time interval holds means of as many values as there are independent observations (the whole part of n_o, per particle for collective displacements), each drawn with replacement from the observed squared displacements of exactly that interval in the requested dimensions: no value lies outside the observed range, and centre, spread and shape agree with theory within sampling error. Draws are independent within an interval, between intervals, and between analyses that share a generator or run in threads, also after refused or interrupted attempts. The reported resampled means, variances and standard deviations are those of all the resamples, one per interval, and the observed mean and its uncertainty are unaffected by resampling.",
['histories','schedules','inputs'],"every random stream, every number of resamples, analysis type, dimension and sub-sampling, one after another or in threads, after any refused or interrupted attempt","Tests resample once and compare sizes; values that are reused, shared between intervals, drawn from the wrong data or in the wrong number look like any other random numbers there.",[D],[('resampling','kinisi/diffusion.py _bootstrap, Bootstrap.sample_until_normal'),('observed values and numbers of draws per interval','kinisi/diffusion.py MSDBootstrap, MSTDBootstrap, MSCDBootstrap')],['resampled distributions, their reported moments, observed n, v, s']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in L))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in L: jsonschema.validate(p,s); assert len(p['title'])<=80,(p['id'],len(p['title']))

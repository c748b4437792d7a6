#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(
            files=['egenerator/' + f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))


NOIMP = ("The 21 stable tests never import this code (it needs the `getclass` "
         "package, which is absent), so they reach nothing of it; and the claim "
         "is over all inputs, which samples cannot settle.")

prop('C01', 'Components are usable only after one completed configure or load',
     'A component becomes configured exactly when a configure or load call on it has run to completion: '
     'configuring or loading a component that is already configured is refused, and a call that fails part-way never leaves it marked as configured. '
     'Saving, loading data through a data handler or a data module, evaluating a model and transforming data refuse to run on a component that is not configured, '
     'and only configured components are accepted as sub components.',
     ['histories', 'fault_sequences'], 'every order of constructor, configure, load, save and use calls, and every call that raises part-way',
     NOIMP,
     ['manager/component.py', 'data/modules', 'data/handler/base.py', 'data/trafo.py', 'model/base.py'],
     [('configured flag set as the last step of configure and load', 'BaseComponent.configure, BaseComponent.load'),
      ('is_configured guards at the head of every operation', 'data modules, BaseDataHandler, DataTransformer, Model')],
     state=[('_is_configured', 'component completed configure or load', 'BaseComponent')],
     observe=['configure()', 'load()', 'save()', 'is_configured'])

prop('C02', 'Compatibility of configurations is decided by every immutable part',
     'Two configurations are compatible if and only if their class, check values, settings and the names of their sub components agree and every non-mutable sub component configuration is itself compatible; '
     'mutable settings, version stamps and the contents of mutable sub components never decide it. '
     'Two configurations that differ in any of the deciding parts are never reported compatible.',
     ['configurations'], 'every pair of configurations, at every nesting depth',
     NOIMP, ['manager/component.py'],
     [('field-by-field comparison with recursion', 'Configuration.is_compatible')],
     observe=['Configuration.is_compatible', 'BaseComponent.is_compatible'])

prop('C03', 'A configuration record is isolated, complete and key-checked',
     'A configuration keeps its own copy of everything it is given and only hands out copies, so no later change to a caller\'s object alters the record. '
     'Settings and mutable settings never share a key, only existing mutable settings can be updated, a sub component name is added at most once, and the combined configuration always reflects both groups of settings. '
     'The class string, versions and every other recorded field survive conversion to a dictionary and back.',
     ['histories', 'configurations'], 'every sequence of reads, mutations of returned objects and updates',
     NOIMP, ['manager/component.py'],
     [('deep copies at every accessor and mutator', 'Configuration properties, dict, update_mutable_settings, add_*'),
      ('key checks', 'Configuration.__init__, update_mutable_settings, add_sub_components')],
     observe=['Configuration.settings', 'Configuration.config', 'Configuration.dict'])

prop('C04', 'Saving a component never silently replaces stored files',
     'Saving a component with overwriting disabled into a place that already holds that component\'s own configuration or data file raises before that component writes anything, and an unconfigured component or one carrying untracked attributes is never written. '
     'With overwriting enabled the same files are replaced. '
     'The overwrite choice applies to the component and to all of its sub components alike.',
     ['histories', 'crash_points'], 'every state of the target directory, every component tree and both overwrite choices',
     NOIMP, ['manager/component.py', 'manager/base.py', 'model/multi_source/base.py', 'model/base.py'],
     [('existence checks before the first write', 'BaseComponent.save'),
      ('overwrite flag handed to sub components', 'BaseComponent.save')],
     observe=['save()'])

prop('C05', 'Loading restores exactly what saving stored, with checked replacements',
     'Loading reads the same files and the same sub component directories that saving wrote, and restores the configuration, the data and every sub component of the saved component under their original names. '
     'A saved component is only loaded into an instance of the class that saved it, and a replacement sub component is used only if it is configured and is compatible with the saved one or is declared mutable. '
     'A replacement that fits no sub component is rejected rather than ignored.',
     ['histories', 'configurations'], 'every component tree, every set of replacement sub components (nested or not)',
     NOIMP, ['manager/component.py', 'model/base.py', 'model/multi_source/base.py', 'manager/base.py'],
     [('mirrored paths and fields', 'BaseComponent.save / BaseComponent.load'),
      ('compatibility gate on replacements', 'BaseComponent.load, _update_sub_components overrides')],
     observe=['load()', 'sub_components'])

prop('C06', 'Weight checkpoints are numbered, kept and restored consistently',
     'Every weight save creates a new checkpoint numbered one above the newest recorded one and never replaces an existing checkpoint; training settings are recorded the same way, one new step file per training run. '
     'Pruning removes only unprotected checkpoints, oldest first, and always keeps the requested number of newest ones; the recorded metadata names exactly the checkpoints that are kept. '
     'Loading restores the requested checkpoint, or the newest recorded one, for every model part, and fails if it does not exist.',
     ['histories', 'crash_points'], 'every sequence of save, protect, prune, resume and load operations',
     NOIMP, ['model/base.py', 'model/multi_source/base.py', 'manager/base.py'],
     [('index = latest + 1, existence checks, pruning slice, metadata file', 'Model.save_weights, Model.save_training_settings, Model.load_weights'),
      ('fan-out to sub components', 'MultiSource / BaseModelManager save_weights, load_weights')],
     observe=['model_checkpoint.yaml', 'save_weights()', 'load_weights()'])

prop('C07', 'Tensor descriptions are complete, ordered and comparable',
     'Two tensor descriptions are equal exactly when all of their recorded fields agree, and a list of tensors equals another exactly when it holds equal tensors, whatever order they were given in. '
     'A tensor list holds each name once and always in the same order, and a lookup by name or index returns the tensor stored under it, or fails. '
     'Converting a tensor or a tensor list to its stored form and back loses no field.',
     ['inputs', 'configurations'], 'every combination of field values and every tensor list',
     'Existing tests compare a handful of tensors that differ in one or two fields; the claim covers each field, each ordering and each malformed specification.',
     ['data/tensor.py'],
     [('field-wise __eq__, validation in constructor', 'DataTensor'), ('sorted unique list', 'DataTensorList')],
     observe=['DataTensor.__eq__', 'DataTensor.serialize', 'DataTensorList'])

prop('C08', 'Configuration files merge without silent overwrites',
     'Merging configuration files keeps every key of every file; a key set by two files with different meaning is an error at any nesting depth instead of silently taking one value. '
     'Values derived by the program (directory placeholders, unique names, version information) are filled in for the merged configuration, and the caller always receives an independent copy of it.',
     ['configurations'], 'every list of configuration files and every nesting of keys',
     'Existing tests merge a few small files; the claim covers all nestings, all key collisions and all mutations of the returned configuration.',
     ['settings/setup_manager.py', 'settings/version_control.py', 'settings/yaml.py'],
     [('recursive update with duplicate detection', 'SetupManager._import_and_merge / _setup_config'),
      ('deep copy on access', 'SetupManager.get_config')],
     observe=['SetupManager.get_config'])

prop('C09', 'Inverse transformation undoes the transformation step by step',
     'For every tensor, transforming and inverse transforming apply exactly mirrored steps (log then normalisation, against de-normalisation then exponential) to the same parameter columns, in the numpy and in the tensorflow path alike. '
     'Neither changes the array it is given, and the bias correction (the normalisation offset) is left out of one exactly when it is left out of the other. '
     'Mean and deviation are accumulated over all batches and all samples with their true counts.',
     ['inputs'], 'every tensor, dtype, log-column selection and batch split',
     NOIMP, ['data/trafo.py'],
     [('transform / inverse_transform pair', 'DataTransformer'), ('online mean/variance accumulation', 'DataTransformer._update_online_variance_vars')],
     observe=['transform()', 'inverse_transform()', 'inverse_transform_cov()'])

prop('C10', 'Files and frames yield the same event data',
     'Loading an event from an HDF5 file and from an I3 frame yields the same tensors: the same labels, seeds, weights, pulses and exclusions, taken from the same source columns, in the same column order, after the same transformations. '
     'A missing key is treated alike by both: reported as missing data, or an error, never as different data.',
     ['inputs', 'configurations'], 'every event content and every module setting, in both input formats',
     NOIMP, ['data/modules/data/pulse_data.py', 'data/modules/labels', 'data/modules/misc', 'data/modules/weights', 'data/modules/filters'],
     [('paired loaders', 'get_data_from_hdf / get_data_from_frame, get_event_filter_mask_from_*')],
     observe=['get_data_from_hdf', 'get_data_from_frame'])

prop('C11', 'Loaded data lines up with the declared tensors',
     'The arrays a data module returns are the ones its tensor list declares, in that order and with the declared data type, and every pulse and exclusion window carries the event, string and sensor indices it belongs to. '
     'Only hits on existing sensors are used, skipped hits leave no undefined rows behind, and every charge adds to exactly one event and sensor. '
     'Modules of one data set must agree on the number of events, and files are closed again whichever way loading ends.',
     ['inputs', 'configurations'], 'every file, event and module combination',
     NOIMP, ['data/modules/data/pulse_data.py', 'data/modules', 'data/handler/modular.py'],
     [('order of data list against DataTensorList', 'data modules'), ('event counts compared', 'ModuleDataHandler._get_data'),
      ('close on all exits', 'loaders')],
     observe=['get_data_from_hdf', 'ModuleDataHandler.get_data_from_hdf'])

prop('C12', 'Event filtering keeps tensors aligned and honours each condition',
     'An event survives filtering exactly if it satisfies every configured condition, each applied to the column and key it names with the comparison it names; an unknown comparison is an error. '
     'The same selection is applied to every tensor of a batch, and vector-like entries are kept exactly for surviving events and renumbered to their new positions.',
     ['inputs', 'configurations'], 'every constraint list, every selection mask and every vector tensor',
     NOIMP, ['data/modules/filters/general_filter.py', 'data/modules/filters/dummy.py', 'data/handler/modular.py'],
     [('operator dispatch', 'GeneralFilterModule'), ('mask application and index rewriting', 'ModuleDataHandler._filter_data')],
     observe=['get_event_filter_mask_from_hdf', 'get_event_filter_mask_from_frame', 'ModuleDataHandler._filter_data'])

prop('C13', 'Batches contain every selected event once with consistent indices',
     'In a batch, the entries of vector-like tensors refer to the position of their event in that very batch, and all tensors of a batch hold the same events in the same order. '
     'Within one pass over the files each selected event is delivered exactly once, and batches have the requested size except for the last, left-over one. '
     'Every entry of a vector-like tensor stays with the event it was loaded with.',
     ['schedules', 'inputs', 'histories'], 'every file list, batch size, number of workers and interleaving of the queue stages',
     NOIMP, ['data/handler/base.py'],
     [('batch assembly and re-indexing', 'BaseDataHandler.get_batch_generator'), ('worker/queue bookkeeping', 'BaseDataHandler.get_batch_generator, kill')],
     observe=['get_batch_generator', 'get_tf_dataset'])

prop('C14', 'Training updates each weight with its own gradient of the training loss',
     'Every training step minimises the sum, over all models of the ensemble, of the configured loss on the training batch plus the configured regularisation, and applies each gradient to the variable it was computed for. '
     'Validation and evaluation batches never change weights and are evaluated in inference mode. '
     'Step counters, saving intervals and the final save cover the whole requested number of iterations.',
     ['histories', 'inputs'], 'every batch, ensemble size, optimiser setting and training length',
     NOIMP, ['manager/base.py'],
     [('tape, gradient pairing, clipping', 'BaseModelManager.perform_training_step / get_loss'), ('training loop', 'BaseModelManager.train')],
     observe=['perform_training_step', 'train', 'get_loss'])

prop('C15', 'Only the selected parameters are fitted; the others keep their seed',
     'A reconstruction varies exactly the parameters selected for fitting; every other parameter stays at its seed value in loss, gradient, Hessian, covariance, sampling and in the returned result. '
     'Values taken out of and put back into the full parameter vector use the same parameter order, and optimiser coordinates are transformed and transformed back exactly when fitting in transformed space. '
     'A fit-parameter list whose length does not match the parameters is an error.',
     ['inputs', 'configurations'], 'every fit-parameter selection, seed and coordinate choice',
     NOIMP, ['manager/source.py', 'manager/reconstruction/modules'],
     [('scatter/gather of fitted parameters', 'SourceManager.parameter_loss_function and relatives, modules/utils/trafo.get_reco_result_batch')],
     observe=['parameter_loss_function', 'reconstruct_events', 'get_reco_result_batch'])

prop('C16', 'Reconstruction chains run in order and report the best result',
     'A reconstruction chain runs its modules in the order they were added, under unique names, handing each the results of all earlier ones, and returns every module\'s result together with its run time. '
     'Selecting the best reconstruction returns the result with the smallest loss among the listed ones. '
     'Every result field that a later module or the frame writer reads is one that the producing module provides.',
     ['configurations', 'inputs'], 'every chain of modules and every set of results',
     NOIMP, ['manager/reconstruction/tray.py', 'manager/reconstruction/modules'],
     [('tray bookkeeping', 'ReconstructionTray'), ('argmin over losses', 'SelectBestReconstruction.execute')],
     observe=['ReconstructionTray.execute', 'SelectBestReconstruction'])

prop('C17', 'Cached functions are reused only for identical settings',
     'A traced function is taken from the function cache only if it was created under the same name with identical settings; otherwise a new one is created and stored under exactly the settings it was built with. '
     'Storing a second function under a name and settings already present is an error.',
     ['configurations', 'histories'], 'every sequence of module constructions sharing one cache',
     NOIMP, ['manager/reconstruction/tray.py', 'manager/reconstruction/modules', 'utils', 'manager/source.py'],
     [('lookup and insertion', 'FunctionCache.get / add'), ('settings dictionary used for both building and storing', 'reconstruction modules')],
     observe=['FunctionCache'])

prop('C18', 'A multi-source hypothesis is the superposition of its sources',
     'The expected charge of a multi-source hypothesis is the sum over all of its sources and its pulse time density is their charge-weighted average; variances add up, and exclusion fractions are combined with the same charge weights. '
     'Every source is evaluated with its own base model and its own parameters, each parameter belongs to exactly one position of the hypothesis, and the sources\' data requirements are checked against the base models.',
     ['inputs', 'configurations'], 'every set of sources and base models',
     NOIMP, ['model/multi_source/base.py', 'model/multi_source/independent.py', 'model/multi_source/muon/default.py', 'model/multi_source/track/stochastic_track.py'],
     [('accumulation over sources', 'MultiSource.get_tensors'), ('parameter slicing', 'get_parameters_and_mapping / get_source_parameters')],
     observe=['MultiSource.get_tensors'])

prop('C19', 'Loss terms are complete, masked and consistent in both forms',
     'Each likelihood option counts every charge and time term once, and leaves excluded sensors out of every sensor term when sensor exclusions are present. '
     'The sorted form of a loss (scalar, per event, per sensor) sums to the same value as the plain list of terms, and the scalar form is the sum of all terms; asking for both at once is an error. '
     'A model that does not account for time exclusions is rejected when time exclusions are present, and combined losses add every member.',
     ['inputs', 'configurations'], 'every likelihood option, exclusion setting and reduction mode',
     NOIMP, ['loss/default.py', 'loss/multi_loss.py', 'loss/snowstorm.py'],
     [('sorted / unsorted branches', 'DefaultLossModule likelihoods'), ('masking', 'x_dom_exclusions branches'), ('summation', 'get_loss, MultiLossModule.get_loss')],
     observe=['get_loss'])

prop('C20', 'Tensorflow and numpy basis functions compute the documented formulas',
     'Each basis function has the same formula in its tensorflow and its numpy version, and every log-density, cumulative and quantile version uses the same parameterisation as the density it belongs to. '
     'Angular distances and opening angles follow the spherical formulas and stay defined for parallel and anti-parallel directions.',
     ['inputs'], 'all argument values',
     'No stable test evaluates these functions; agreement of formulas over all real arguments cannot be sampled.',
     ['utils/basis_functions.py', 'utils/angles.py'],
     [('paired implementations', 'basis_functions tf_* / plain'), ('clipping of the cosine', 'angles.get_angle_deviation')],
     observe=['basis_functions', 'angles'])

prop('C21', 'Source models apply exclusion windows and efficiencies consistently',
     'When time exclusions are present, a source model that supports them scales the expected charge of a sensor down and its pulse densities up by the same excluded fraction, and otherwise applies neither. '
     'Expected charges stay positive and are scaled by energy and sensor efficiency as configured, mixture weights sum to one, and every pulse is evaluated with the latent values of its own event and sensor relative to its own event\'s time. '
     'Each model declares as many network inputs as it feeds and returns the tensors that the losses require.',
     ['inputs', 'configurations'], 'every model option, parameter point and pulse series',
     NOIMP, ['model/source/cascade', 'model/source/noise/default.py', 'model/source/track/stochastic_segment.py', 'model/source/base.py'],
     [('exclusion branches', 'get_tensors of the source models'), ('layer definition against inputs', '_build_architecture / get_tensors')],
     observe=['Source.get_tensors'])

prop('C22', 'No operation can fail on an undefined name, attribute or import',
     'Every name the package uses is defined on every path that reaches its use, every imported package member exists, every method or attribute taken from an object of a known package class exists there, and every call passes arguments that the called package function accepts.',
     ['programs', 'inputs'], 'every function and every path through it',
     'Python reports such errors only when the line runs, and the stable tests run 2 of about 60 modules.',
     ['.'],
     [('scoping and signatures', 'whole package')],
     observe=['NameError, UnboundLocalError, AttributeError, TypeError, ImportError at run time'])

prop('C23', 'Every shipped configuration fits the code it configures',
     'Every class named in a shipped configuration file exists, and the settings given for it are settings that class accepts, with none missing that it requires. '
     'Every configuration key the programs read without a default is present in the configurations made for them.',
     ['configurations'], 'all shipped configuration files and all code that reads them',
     'No stable test loads the shipped configurations.',
     ['../configs', 'utils/build_components.py', 'data/handler/modular.py'],
     [('dynamic class loading and keyword expansion', 'build_components, ModuleDataHandler._configure, misc.load_class')],
     observe=['train_model, create_trafo_model, reconstruct_test_data, export_manager'])

prop('C24', 'Seeded operations draw randomness only from their own seeded source',
     'Wherever an operation is given a seed or a random service, all random numbers of that operation come from the generator made from it, and the process-wide numpy and python generators are neither seeded nor used by it. '
     'The same seed therefore always gives the same stream, in whatever order operations are combined.',
     ['inputs', 'schedules'], 'every operation that accepts a seed',
     NOIMP, ['data/modules', 'manager/reconstruction/modules', 'utils/angles.py', 'ic3/simulation.py', 'utils/spherical_opt.py', 'data/handler/base.py'],
     [('local RandomState / random_service arguments', 'data modules, reconstruction modules, simulation')],
     observe=['loaded labels', 'sampled events'])

prop('C25', 'IceTray segments read and write exactly the documented frame objects',
     'The reconstruction segment configures its chain from its documented parameters and writes the best fit, losses, covariances, angular error and goodness of fit under their documented names, each value taken from the matching result and parameter. '
     'The simulation segment simulates every particle above threshold that can be simulated, refuses particles it cannot simulate, and gives every simulated charge and pulse to the sensor and time it was drawn for.',
     ['inputs', 'configurations'], 'every frame, particle tree and segment option',
     'IceTray is not installed, so nothing of these segments is tested.',
     ['ic3/reconstruction.py', 'ic3/simulation.py', 'utils/configurator.py'],
     [('parameter hand-over', 'Configure'), ('frame writing', 'Physics, DAQ'), ('tree recursion', '_get_light_sources')],
     observe=['frame objects'])

prop('C26', 'Piecewise learning rates select the schedule owning each step',
     'A piecewise learning-rate schedule evaluates, for every step, exactly the scheduler whose interval contains that step, with the step counted from the start of that interval. '
     'The number of boundaries must be one less than the number of schedulers.',
     ['inputs'], 'every step and every list of boundaries',
     'No stable test evaluates the scheduler; the claim covers every step and any number of intervals.',
     ['utils/learning_rate.py'],
     [('case table', 'MultiLearningRateScheduler.__call__')],
     observe=['MultiLearningRateScheduler'])

prop('C27', 'The global minimiser keeps points and values in step and returns the best',
     'The global minimiser replaces a point only together with all of its coordinate representations and its function value, and outside of a shrink step only by a point with a smaller value. '
     'It returns the point with the smallest value it holds, and counts every function evaluation.',
     ['inputs', 'histories'], 'every objective, starting population and sequence of steps',
     'No stable test runs the minimiser.',
     ['utils/spherical_opt.py', 'manager/source.py'],
     [('parallel arrays s_cart, s_spher, x, fvals', 'spherical_opt')],
     observe=['spherical_opt result'])

prop('C28', 'Detector geometry tables agree with each other',
     'All detector tables describe the same 86 strings of 60 sensors: positions, hexagonal indices, noise rates and efficiencies have one entry per sensor, lookups by string and by hexagonal index are inverse to each other, and the two position tables give the same coordinates for the same sensor. '
     'Sensors marked bad are exactly those with zero efficiency in the table that excludes bad sensors, and a lookup outside the detector is refused.',
     ['inputs'], 'every string and sensor number',
     'No stable test reads the tables beyond importing them.',
     ['utils/detector.py', 'utils/dom_noise_rates.py'],
     [('literal tables and index helpers', 'detector')],
     observe=['detector tables and helpers'])

NA = [
    ('C40', 'Reconstructed parameters converge to the true maximum of the likelihood',
     'For every event the minimisers converge to the global optimum of the configured loss within the requested tolerance.',
     'all events and loss surfaces'),
    ('C41', 'Uncertainty estimates have correct coverage',
     'Covariance matrices, circularised errors and goodness-of-fit p-values have the stated statistical coverage.',
     'all events and simulated ensembles'),
    ('C42', 'Network predictions describe the simulation',
     'A trained model reproduces charge and time distributions of the simulation it was trained on.',
     'all trained weights and hypotheses'),
    ('C43', 'Batch pipeline never blocks forever',
     'For every interleaving of the worker processes and queue stages the batch pipeline makes progress until all events are delivered.',
     'all schedules of workers and consumers'),
    ('C44', 'Restored weights reproduce predictions bit for bit',
     'A model loaded from a checkpoint yields bitwise the same outputs as the model that wrote it.',
     'all weights, inputs and platforms'),
]
for i, t, s, q in NA:
    prop(i, t, s, ['inputs'], q,
         'Quantifies over run-time numerical values or schedules; the tests sample none of them.',
         ['manager/source.py', 'manager/base.py', 'data/handler/base.py', 'model/base.py'], [('see DESIGN.md', 'not claimed')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))

"""Which operations carry which property.

``functions``: the operations whose whole observable behaviour (result,
failure condition, stores, effects and their order) is the property's anchor
and is validated against the reviewed contract in spec/ref.
``rules``: the explicit obligations (sa/rules.py) decided for the property.
Patterns are fnmatch patterns on 'module:Class.method' without 'egenerator.'.
"""

P = {}


def prop(pid, functions=(), rules=(), also=()):
    P[pid] = dict(functions=['egenerator.' + f for f in functions],
                  rules=list(rules))


COMP = 'manager.component:'

prop('C01', [
    COMP + 'BaseComponent.__init__', COMP + 'BaseComponent.configure',
    COMP + 'BaseComponent.load', COMP + 'BaseComponent.save',
    COMP + 'BaseComponent.is_configured',
    COMP + 'BaseComponent._check_member_attributes',
    COMP + 'BaseComponent._get_untracked_member_attributes',
    COMP + 'BaseComponent.<class>', COMP + 'BaseComponent._configure',
    COMP + 'BaseComponent._update_sub_components',
    COMP + 'Configuration.add_sub_components',
    'model.base:Model.assert_configured', 'model.base:Model.__init__',
    'data.handler.base:BaseDataHandler.__init__',
    'data.modules.*:*._configure', 'data.modules.*:*.__init__',
    'data.trafo:DataTransformer.__init__',
    'data.handler.base:BaseDataHandler.check_if_configured',
    'data.trafo:DataTransformer._check_settings',
    'data.trafo:DataTransformer._configure',
    'data.handler.modular:ModuleDataHandler._configure_derived_class',
    'data.handler.base:BaseDataHandler._configure',
    'model.base:Model._configure',
    'manager.base:BaseModelManager._configure',
    'loss.multi_loss:MultiLossModule._configure',
    'model.multi_source.base:MultiSource._configure_derived_class',
], ['guards'])

prop('C02', [
    COMP + 'Configuration.is_compatible', COMP + 'Configuration.__init__',
    COMP + 'Configuration.settings', COMP + 'Configuration.check_values',
    COMP + 'Configuration.class_string',
    COMP + 'Configuration.sub_component_configurations',
    COMP + 'Configuration.mutable_sub_components',
    COMP + 'Configuration.add_mutable_sub_components',
    COMP + 'Configuration.add_sub_components',
    COMP + 'Configuration.dict', COMP + 'Configuration.<class>',
    COMP + 'BaseComponent.is_compatible',
    'misc:get_full_class_string_of_object',
    'manager.base:BaseModelManager._check_model_ensemble_compatibility',
    'manager.base:BaseModelManager._check_sub_component_compatibility',
    COMP + 'BaseComponent._update_sub_components',
    COMP + 'Configuration.replace_sub_components',
    'manager.base:BaseModelManager._update_sub_components',
    'data.handler.modular:ModuleDataHandler._update_sub_components',
    'data.handler.modular:ModuleDataHandler.<class>',
    'data.handler.modular:ModuleDataHandler._configure_derived_class',
    'model.base:Model._configure', 'manager.base:BaseModelManager._configure',
], ['check_values'])

prop('C03', [
    COMP + 'Configuration.*', COMP + 'BaseComponent.configuration',
    COMP + 'BaseComponent.data', COMP + 'BaseComponent.sub_components',
    COMP + 'BaseComponent.untracked_data',
    COMP + 'BaseComponent.configure', COMP + 'BaseComponent.load',
    COMP + 'BaseComponent._update_sub_components',
    COMP + 'BaseComponent.<class>', COMP + 'BaseComponent.__init__',
], ['copies'])

prop('C04', [
    COMP + 'BaseComponent.save', COMP + 'BaseComponent._save',
    COMP + 'BaseComponent._check_member_attributes',
    COMP + 'BaseComponent._get_untracked_member_attributes',
    'manager.base:BaseModelManager._save', 'model.base:Model._save',
    'model.multi_source.base:MultiSource._save',
    'manager.base:BaseModelManager.save_weights',
    'model.multi_source.base:MultiSource.save_weights',
    'model.base:Model.save_weights',
    COMP + 'BaseComponent.is_configured',
    COMP + 'BaseComponent.configuration',
    'model.multi_source.base:MultiSource.<class>',
    'model.base:Model.<class>', 'manager.base:BaseModelManager.<class>',
    'export_manager:main', 'create_trafo_model:main', 'train_model:main',
], ['save_order'])

prop('C05', [
    COMP + 'BaseComponent.save', COMP + 'BaseComponent.load',
    COMP + 'BaseComponent._load', COMP + 'BaseComponent._save',
    COMP + 'BaseComponent._update_sub_components',
    COMP + 'BaseComponent.is_compatible',
    COMP + 'Configuration.__init__', COMP + 'Configuration.dict',
    COMP + 'Configuration.replace_sub_components',
    COMP + 'Configuration.is_compatible',
    'manager.base:BaseModelManager._load', 'model.base:Model._load',
    'manager.base:BaseModelManager._save', 'model.base:Model._save',
    'model.multi_source.base:MultiSource._load',
    'model.multi_source.base:MultiSource._save',
    'manager.base:BaseModelManager._update_sub_components',
    'data.handler.modular:ModuleDataHandler._update_sub_components',
    COMP + 'Configuration.mutable_sub_components',
    COMP + 'Configuration.sub_component_configurations',
    COMP + 'Configuration.add_sub_components',
    COMP + 'Configuration.add_mutable_sub_components',
    COMP + 'BaseComponent._check_member_attributes',
    COMP + 'BaseComponent._get_untracked_member_attributes',
    'model.base:Model.save_weights', 'model.base:Model.load_weights',
    'model.multi_source.base:MultiSource.save_weights',
    'model.multi_source.base:MultiSource.load_weights',
    'manager.base:BaseModelManager.save_weights',
    'manager.base:BaseModelManager.load_weights',
    'manager.base:BaseModelManager._check_*',
    'data.handler.modular:ModuleDataHandler.*',
    'export_manager:main', 'train_model:main',
    'utils.build_components:*', 'misc:*',
], ['save_load_paths'])

prop('C06', [
    'model.base:Model.save_weights', 'model.base:Model.load_weights',
    'model.base:Model.save_training_settings',
    'model.base:Model.update_num_training_steps', 'model.base:Model.step',
    'model.base:Model.checkpoint', 'model.base:Model._save',
    'model.base:Model._load', 'model.base:Model.__init__',
    'model.base:Model._configure',
    'model.multi_source.base:MultiSource.save_weights',
    'model.multi_source.base:MultiSource.load_weights',
    'model.multi_source.base:MultiSource._save',
    'model.multi_source.base:MultiSource._load',
    'manager.base:BaseModelManager.save_weights',
    'manager.base:BaseModelManager.load_weights',
    'manager.base:BaseModelManager.save_training_settings',
    'manager.base:BaseModelManager._load',
    'manager.base:BaseModelManager._save',
    'manager.base:BaseModelManager.train', 'model.base:Model.*',
    'model.multi_source.base:MultiSource._configure_derived_class',
    'model.multi_source.base:MultiSource.<class>',
], ['fan_out'])

prop('C07', ['data.tensor:*',
             'data.handler.base:BaseDataHandler._check_data_structure',
             'data.handler.base:BaseDataHandler._configure',
             'data.handler.base:BaseDataHandler.tensors'], ['tensor_fields'])

prop('C08', ['settings.*:*', 'train_model:main', 'create_trafo_model:main',
             'export_manager:main', 'reconstruct_test_data:main'], ['merge'])

prop('C09', ['data.trafo:*', 'create_trafo_model:main'], ['no_inplace'])

prop('C10', [
    'data.modules.*:*.get_data_from_*', 'data.modules.*:*.create_data_*',
    'data.modules.*:*.get_event_filter_mask_*',
    'data.modules.labels.*:*._shift_*',
    'data.modules.labels.*:*._get_cascade_extension',
    'data.modules.*:*._configure', 'data.modules.*:*._get_*',
    'data.modules.*:*.__init__',
    'data.modules.misc.seed_loader:*',
    'data.handler.base:BaseDataHandler.get_data_from_*',
    'data.handler.base:BaseDataHandler._check_data_structure',
    'data.handler.modular:ModuleDataHandler._get_data*',
    'data.handler.modular:ModuleDataHandler._create_data*',
    'data.handler.modular:ModuleDataHandler._get_value',
], ['hdf_frame'])

prop('C11', [
    'data.modules.data.*:*', 'data.modules.misc.*:*',
    'data.handler.modular:ModuleDataHandler.*_tensors',
    'data.modules.labels.*:*._*', 'data.handler.base:BaseDataHandler.tensors',
    'data.modules.*:*.get_data_from_*', 'data.modules.*:*.create_data_*',
    'data.modules.*:*._configure', 'data.modules.*:*.write_data_to_frame',
    'data.handler.modular:ModuleDataHandler._get_data*',
    'data.handler.modular:ModuleDataHandler._create_data*',
    'data.handler.modular:ModuleDataHandler._write_data*',
    'data.handler.modular:ModuleDataHandler._configure_derived_class',
    'data.handler.base:BaseDataHandler.get_data_from_*',
    'data.handler.base:BaseDataHandler.get_tensor_from_frame',
    'data.handler.base:BaseDataHandler.create_data_from_frame',
    'data.handler.base:BaseDataHandler.write_data_to_frame',
    'data.handler.base:BaseDataHandler._check_data_structure',
    'data.handler.base:BaseDataHandler.convert_data_to_tensor',
], ['tensor_order', 'close'])

prop('C12', [
    'data.modules.filters.*:*',
    'data.handler.modular:ModuleDataHandler._filter_data',
    'data.handler.modular:ModuleDataHandler._get_data*',
    'data.handler.modular:ModuleDataHandler._configure_derived_class',
    'data.handler.modular:ModuleDataHandler.filter_module',
    'data.handler.modular:ModuleDataHandler._load_modules',
    'data.handler.base:BaseDataHandler.get_data_from_*',
    'data.handler.base:BaseDataHandler.batch_to_event_structure',
    'data.handler.base:BaseDataHandler.event_to_batch_structure',
    'data.modules.*:*.get_event_filter_mask_*',
], ['operators'])

prop('C13', [
    'data.handler.base:BaseDataHandler.batch_to_event_structure',
    'data.handler.base:BaseDataHandler.event_to_batch_structure',
    'data.handler.base:BaseDataHandler.get_batch_generator',
    'data.handler.base:BaseDataHandler.get_tf_dataset',
    'data.handler.base:BaseDataHandler.get_data_set_signature',
    'data.handler.base:BaseDataHandler.kill',
    'data.handler.base:BaseDataHandler.__init__',
    'data.handler.base:BaseDataHandler.__del__',
    'data.handler.modular:ModuleDataHandler._filter_data',
    'data.handler.modular:ModuleDataHandler._get_data*',
    'data.handler.base:BaseDataHandler.*',
    'manager.source:SourceManager.reconstruct_testdata',
], ['reindex'])

prop('C14', [
    'manager.base:BaseModelManager.*', 'model.base:Model.*',
    'manager.base:BaseModelManager.get_loss',
    'manager.base:BaseModelManager.regularization_loss',
    'manager.base:BaseModelManager.get_concrete_function',
    'manager.base:BaseModelManager.train',
    'manager.base:BaseModelManager.optimizer',
    'manager.base:BaseModelManager.__init__',
    'manager.base:BaseModelManager.models',
    'manager.base:BaseModelManager._configure',
    'model.base:Model.update_num_training_steps', 'model.base:Model.step',
    'train_model:main', 'loss.multi_loss:MultiLossModule.get_loss',
    'utils.learning_rate:*',
    'data.handler.base:BaseDataHandler.get_tf_dataset',
    'data.handler.base:BaseDataHandler.get_data_set_signature',
], ['gradients'])

prop('C15', [
    'manager.source:*',
    'manager.reconstruction.modules.*:*',
    'data.trafo:DataTransformer.*transform*',
    'data.trafo:DataTransformer._check_settings',
    'manager.reconstruction.modules.reconstruction:Reconstruction.*',
    'manager.reconstruction.modules.covariance:*',
    'manager.reconstruction.modules.mcmc:*',
    'manager.reconstruction.modules.visualization:*',
    'manager.reconstruction.modules.fit_quality:*',
    'manager.reconstruction.modules.opening_angle:*',
], ['scatter'])

prop('C16', [
    'manager.reconstruction.tray:ReconstructionTray.*',
    'manager.reconstruction.modules.*:*',
    'ic3.reconstruction:*', 'manager.source:SourceManager.reconstruct_*',
    'manager.source:SourceManager.run_*', 'reconstruct_test_data:main',
], ['result_keys'])

prop('C17', [
    'manager.reconstruction.tray:*',
    'manager.reconstruction.modules.*:*',
    'manager.source:SourceManager.get_*',
    'manager.base:BaseModelManager.get_concrete_function',
    'utils.configurator:*',
], ['cache'])

prop('C18', [
    'model.multi_source.*:*',
    'model.source.base:InputTensorIndexer.*',
    'model.source.base:*',
], ['sources'])

prop('C19', ['loss.*:*'], ['loss_forms'])

prop('C20', ['utils.basis_functions:*', 'utils.angles:*',
             'utils.spherical_opt:*',
             'manager.reconstruction.modules.opening_angle:*',
             'manager.reconstruction.modules.covariance:*'], ['twins'])

prop('C21', ['model.source.*:*', 'utils.basis_functions:*',
             'utils.detector:*'], ['exclusion_scaling'])

prop('C22', [], ['names', 'self_attributes', 'calls', 'imports'])

prop('C23', ['utils.build_components:*', 'misc:*', 'settings.*:*',
             'data.handler.modular:ModuleDataHandler._configure*',
             'data.handler.modular:ModuleDataHandler._load_modules',
             'train_model:main', 'create_trafo_model:main',
             'export_manager:main', 'reconstruct_test_data:main'], ['configs'])

prop('C24', [
    'manager.reconstruction.modules.mcmc:*',
    'manager.reconstruction.modules.fit_quality:*',
    'manager.reconstruction.modules.opening_angle:*',
    'manager.reconstruction.modules.reconstruction:Reconstruction.*',
    'ic3.simulation:*', 'utils.angles:get_delta_psi_vector*',
    'utils.basis_functions:sample_*', 'utils.configurator:*',
    'utils.spherical_opt:spherical_opt',
    'data.handler.base:BaseDataHandler.get_batch_generator',
    'data.handler.base:BaseDataHandler.get_tf_dataset',
    'data.modules.*:*._configure', 'data.modules.*:*.__init__',
    'data.modules.misc.seed_loader:*',
], ['randomness'])

prop('C25', ['ic3.*:*', 'utils.configurator:*'], ['frame_keys'])

prop('C26', ['utils.learning_rate:*',
             'manager.base:BaseModelManager.__init__',
             'manager.base:BaseModelManager.optimizer',
             'manager.base:BaseModelManager._configure'], ['late_binding'])

prop('C27', [
    'utils.spherical_opt:*',
    'manager.source:SourceManager.reconstruct_events_spherical_opt',
], ['parallel_arrays'])

prop('C28', ['utils.detector:*', 'utils.dom_noise_rates:*'], ['tables'])

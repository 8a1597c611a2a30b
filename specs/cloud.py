"""Reference definitions of the cloud converters and client (parsed, never run), confirmed by reading."""


@of("aihwkit.cloud.converter.v1.mappings.build_inverse_mapping")
def build_inverse_mapping(mapping: Dict):
    return {value if not isinstance(value, Function) else value.id_: key for key, value in mapping.items()}


@of("aihwkit.cloud.converter.v1.mappings.Function")
class Function:
    def __init__(self, id_: str, args: Dict):
        self.id_ = id_
        self.args = args

    def to_proto(self, source: object, proto_cls: type):
        instance = proto_cls(id=self.id_)
        for name, type_ in self.args.items():
            value = self.get_field_value_to_proto(source, name, None)
            argument = AttributeProto(name=name)
            if isinstance(type_, list):
                proto_type = TYPES_LISTS[type_[0]]
                final_value = proto_type.fn(value)
                if isinstance(final_value, int):
                    final_value = [final_value, final_value]
                getattr(argument, proto_type.field).extend(final_value)
            else:
                proto_type = TYPES[type_]
                setattr(argument, proto_type.field, proto_type.fn(value))
            argument.type = proto_type.attribute_type
            instance.arguments.append(argument)
        return instance

    def from_proto(self, source: Any, cls: type):
        kwargs = {}
        for argument in source.arguments:
            type_ = self.args[argument.name]
            if isinstance(type_, list):
                proto_type = TYPES_LISTS[type_[0]]
            else:
                proto_type = TYPES[type_]
            new_argument = self.get_argument_from_proto(argument, proto_type.field, None)
            if isinstance(type_, list):
                new_argument[argument.name] = list(new_argument[argument.name])
            kwargs.update(new_argument)
        weight_scaling_omega = kwargs.pop('weight_scaling_omega', None)
        if weight_scaling_omega is not None:
            if 'rpu_config' not in kwargs or not hasattr(kwargs['rpu_config'], 'mapping'):
                raise ConversionError('Expect Mappable RPUConfig')
            kwargs['rpu_config'].mapping.weight_scaling_omega = weight_scaling_omega
        return cls(**kwargs)

    def get_field_value_to_proto(self, source: Any, field: str, default: Any=None):
        return getattr(source, field, default)

    def get_argument_from_proto(self, source: Any, field: str, default: Any=None):
        return {source.name: getattr(source, field, default)}



@of("aihwkit.cloud.converter.v1.mappings.LayerFunction")
class LayerFunction:
    def get_field_value_to_proto(self, source: Any, field: str, default: Any=None):
        if field == 'bias':
            bias = getattr(source, 'bias', None)
            return bias is not None and bias is not False
        if field == 'weight_scaling_omega':
            return next(source.analog_tiles()).rpu_config.mapping.weight_scaling_omega
        if field == 'rpu_config':
            preset_cls = type(next(source.analog_tiles()).rpu_config)
            try:
                return Mappings.presets[preset_cls]
            except KeyError as ex:
                raise ConversionError('Invalid rpu_config in layer: {} not among the presets'.format(preset_cls)) from ex
        return super().get_field_value_to_proto(source, field, default)

    def get_argument_from_proto(self, source: Any, field: str, default: Any=None):
        if source.name == 'rpu_config':
            preset_str = getattr(source, field, default).decode('utf-8')
            try:
                preset = InverseMappings.presets[preset_str]
            except KeyError as ex:
                raise ConversionError('Invalid rpu_config in layer: {} not among the presets'.format(preset_str)) from ex
            return {'rpu_config': preset()}
        return super().get_argument_from_proto(source, field, default)



@of("aihwkit.cloud.converter.v1.i_mappings.build_inverse_mapping")
def build_inverse_mapping(mapping: Dict):
    return {value if not isinstance(value, Function) else value.id_: key for key, value in mapping.items()}


@of("aihwkit.cloud.converter.v1.i_mappings.Function")
class Function:
    def __init__(self, id_: str, args: Dict):
        self.id_ = id_
        self.args = args

    def to_proto(self, source: object, proto_cls: type):
        instance = proto_cls(id=self.id_)
        for name, type_ in self.args.items():
            value = self.get_field_value_to_proto(source, name, None)
            argument = AttributeProto(name=name)
            if isinstance(type_, list):
                proto_type = TYPES_LISTS[type_[0]]
                final_value = proto_type.fn(value)
                if isinstance(final_value, int):
                    final_value = [final_value, final_value]
                getattr(argument, proto_type.field).extend(final_value)
            else:
                proto_type = TYPES[type_]
                setattr(argument, proto_type.field, proto_type.fn(value))
            argument.type = proto_type.attribute_type
            instance.arguments.append(argument)
        return instance

    def from_proto(self, source: Any, cls: type, default: Any=None):
        kwargs = {}
        for argument in source.arguments:
            if argument.name not in self.args:
                continue
            type_ = self.args[argument.name]
            if isinstance(type_, list):
                proto_type = TYPES_LISTS[type_[0]]
            else:
                proto_type = TYPES[type_]
            default_ = None if default is None else default.get(argument.name, None)
            new_argument = self.get_argument_from_proto(argument, proto_type.field, default_)
            if isinstance(type_, list):
                new_argument[argument.name] = list(new_argument[argument.name])
            kwargs.update(new_argument)
        return cls(**kwargs)

    def get_field_value_to_proto(self, source: Any, field: str, default: Any=None):
        return getattr(source, field, default)

    def get_argument_from_proto(self, source: Any, field: str, default: Any=None):
        return {source.name: getattr(source, field, default)}



@of("aihwkit.cloud.converter.v1.i_mappings.LayerFunction")
class LayerFunction:
    def get_field_value_to_proto(self, source: Any, field: str, default: Any=None):
        if field == 'bias':
            bias = getattr(source, 'bias', None)
            return bias is not None and bias is not False
        if field == 'rpu_config':
            analog_tile = next(source.analog_tiles())
            preset_cls = type(analog_tile.rpu_config)
            if preset_cls not in Mappings.presets:
                raise ConversionError(f'Invalid rpu_config in layer: {preset_cls} not among the presets')
            return Mappings.presets[preset_cls]
        return super().get_field_value_to_proto(source, field, default)

    def get_argument_from_proto(self, source: Any, field: str, default: Any=None):
        if source.name == 'rpu_config':
            if not isinstance(default, RPUconfigInfo):
                raise ConversionError('Expect an new RPUconfigInfo as default for layer creation.')
            return {'rpu_config': default.create_inference_rpu_config(self.id_)}
        return super().get_argument_from_proto(source, field, default)



@of("aihwkit.cloud.converter.v1.training.BasicTrainingConverter")
class BasicTrainingConverter:
    def to_proto(self, experiment: BasicTraining):
        version = self._version_to_proto()
        dataset = self._dataset_to_proto(experiment.dataset, experiment.batch_size)
        network = self._model_to_proto(experiment.model)
        training = self._training_to_proto(experiment.epochs, experiment.learning_rate, experiment.loss_function)
        training_input = TrainingInput(version=version, dataset=dataset, network=network, training=training)
        return training_input

    def from_proto(self, training_proto: Any):
        dataset = InverseMappings.datasets[training_proto.dataset.dataset_id]
        model = self._model_from_proto(training_proto.network)
        batch_size = training_proto.dataset.batch_size
        loss_function = InverseMappings.loss_functions[training_proto.training.loss_function.id]
        epochs = training_proto.training.epochs
        learning_rate = training_proto.training.optimizer.arguments[0].f
        return BasicTraining(dataset=dataset, model=model, batch_size=batch_size, loss_function=loss_function, epochs=epochs, learning_rate=learning_rate)

    @staticmethod
    def _version_to_proto():
        return Version(schema=1, opset=1)

    @staticmethod
    def _dataset_to_proto(dataset: type, batch_size: int):
        if dataset not in Mappings.datasets:
            raise ConversionError('Unsupported dataset: {}'.format(dataset))
        return Dataset(dataset_id=Mappings.datasets[dataset], batch_size=batch_size)

    @staticmethod
    def _model_to_proto(model: Module):
        if not isinstance(model, AnalogSequential):
            raise ConversionError('Unsupported model: only AnalogSequential is supported')
        children_types = {type(layer) for layer in model.children()}
        valid_types = set(Mappings.layers.keys()) | set(Mappings.activation_functions.keys())
        if children_types - valid_types:
            raise ConversionError('Unsupported layers: {}'.format(children_types - valid_types))
        network = Network()
        for child in model.children():
            child_type = type(child)
            if child_type in Mappings.layers:
                item = LayerOrActivationFunction(layer=Mappings.layers[child_type].to_proto(child, LayerProto))
            else:
                item = LayerOrActivationFunction(activation_function=Mappings.activation_functions[child_type].to_proto(child, ActivationFunctionProto))
            network.layers.extend([item])
        return network

    @staticmethod
    def _training_to_proto(epochs: int, learning_rate: float, loss_function: _Loss):
        if loss_function not in Mappings.loss_functions:
            raise ConversionError('Unsupported loss function: {}'.format(loss_function))
        optimizer = OptimizerProto(id='AnalogSGD')
        optimizer.arguments.append(AttributeProto(name='lr', type=AttributeProto.AttributeType.FLOAT, f=learning_rate))
        training = Training(epochs=epochs, optimizer=optimizer, loss_function=Mappings.loss_functions[loss_function].to_proto(loss_function(), LossFunctionProto))
        return training

    @staticmethod
    def _model_from_proto(model_proto: Any):
        layers = []
        for layer_proto in model_proto.layers:
            if layer_proto.WhichOneof('item') == 'layer':
                layer_cls = InverseMappings.layers[layer_proto.layer.id]
                layer = Mappings.layers[layer_cls].from_proto(layer_proto.layer, layer_cls)
            else:
                layer_cls = InverseMappings.activation_functions[layer_proto.activation_function.id]
                layer = Mappings.activation_functions[layer_cls].from_proto(layer_proto.activation_function, layer_cls)
            layers.append(layer)
        return AnalogSequential(*layers)



@of("aihwkit.cloud.converter.v1.training.BasicTrainingResultConverter")
class BasicTrainingResultConverter:
    def from_proto(self, results: Any):
        return {'version': {'schema': 1, 'opset': 1}, 'epochs': self._epochs_from_proto(results)}

    @staticmethod
    def _epochs_from_proto(epochs_proto: Any):
        epochs = []
        for epoch in epochs_proto.epochs:
            epoch_dict = {'epoch': epoch.epoch, 'metrics': {}}
            for metric in epoch.metrics:
                epoch_dict['metrics'][metric.name] = metric.f
            epochs.append(epoch_dict)
        return epochs



@of("aihwkit.cloud.converter.v1.inferencing.BasicInferencingConverter")
class BasicInferencingConverter:
    def to_proto(self, experiment: BasicInferencing, analog_info: Dict, noise_model_info: Dict):
        version = self._version_to_proto()
        dataset = self._dataset_to_proto(experiment.dataset, experiment.batch_size)
        network = self._model_to_proto(experiment.model, experiment.weight_template_id)
        inferencing = self._inferencing_to_proto(experiment.inference_repeats, experiment.inference_time, analog_info, noise_model_info)
        return InferenceInput(version=version, dataset=dataset, network=network, inferencing=inferencing)

    def from_proto(self, protobuf: Any):
        dataset = InverseMappings.datasets[protobuf.dataset.dataset_id]
        layers = protobuf.network.layers
        alog_info = AnalogInfo(protobuf.inferencing.analog_info)
        nm_info = NoiseModelInfo(protobuf.inferencing.noise_model_info)
        rc_info = RPUconfigInfo(nm_info, alog_info, layers)
        model = self._model_from_proto(protobuf.network, rc_info)
        batch_size = protobuf.dataset.batch_size
        inference_info = self._inference_info_from_proto(protobuf)
        loss_function = NLLLoss
        weight_template_id = inference_info['weight_template_id']
        inference_repeats = inference_info['inference_repeats']
        inference_time = inference_info['inference_time']
        return BasicInferencing(dataset=dataset, model=model, batch_size=batch_size, loss_function=loss_function, weight_template_id=weight_template_id, inference_repeats=inference_repeats, inference_time=inference_time)

    @staticmethod
    def _version_to_proto():
        return Version(schema=1, opset=1)

    @staticmethod
    def _dataset_to_proto(dataset: type, batch_size: int):
        if dataset not in Mappings.datasets:
            raise ConversionError(f'Unsupported dataset: {dataset}')
        return Dataset(dataset_id=Mappings.datasets[dataset], batch_size=batch_size)

    @staticmethod
    def _model_to_proto(model: Module, weight_template_id: str):
        if not isinstance(model, AnalogSequential):
            raise ConversionError('Unsupported model: only AnalogSequential is supported')
        children_types = {type(layer) for layer in model.children()}
        valid_types = set(Mappings.layers.keys()) | set(Mappings.activation_functions.keys())
        if children_types - valid_types:
            raise ConversionError(f'Unsupported layers: {children_types - valid_types}')
        network = Network(weight_template_id=weight_template_id)
        for child in model.children():
            child_type = type(child)
            if child_type in Mappings.layers:
                item = LayerOrActivationFunction(layer=Mappings.layers[child_type].to_proto(child, LayerProto))
            else:
                item = LayerOrActivationFunction(activation_function=Mappings.activation_functions[child_type].to_proto(child, ActivationFunctionProto))
            network.layers.extend([item])
        return network

    @staticmethod
    def _noise_model_to_proto(noise_model_info: Dict):
        model = None
        device_id = noise_model_info['device_id']
        if device_id == 'pcm':
            model = NoiseModelProto(pcm=PCMProto(device_id=device_id, programming_noise_scale=noise_model_info['programming_noise_scale'], read_noise_scale=noise_model_info['read_noise_scale'], drift_scale=noise_model_info['drift_scale'], drift_compensation=noise_model_info['drift_compensation'], poly_first_order_coef=noise_model_info['poly_first_order_coef'], poly_second_order_coef=noise_model_info['poly_second_order_coef'], poly_constant_coef=noise_model_info['poly_constant_coef']))
        else:
            model = NoiseModelProto(generic=GenericProto(device_id=device_id, programming_noise_scale=noise_model_info['programming_noise_scale'], read_noise_scale=noise_model_info['read_noise_scale'], drift_scale=noise_model_info['drift_scale'], drift_compensation=noise_model_info['drift_compensation'], poly_first_order_coef=noise_model_info['poly_first_order_coef'], poly_second_order_coef=noise_model_info['poly_second_order_coef'], poly_constant_coef=noise_model_info['poly_constant_coef'], drift_mean=noise_model_info['drift_mean'], drift_std=noise_model_info['drift_std']))
        return model

    @staticmethod
    def rpu_config_info_from_info(analog_info: Dict, noise_model_info: Dict):
        nm_info = NoiseModelInfo(BasicInferencingConverter._noise_model_to_proto(noise_model_info))
        a_info = AnalogInfo(AnalogProto(**analog_info))
        return RPUconfigInfo(nm_info, a_info, None)

    @staticmethod
    def rpu_config_from_info(analog_info: Dict, noise_model_info: Dict, func_id: str='id-not-provided'):
        nm_info = NoiseModelInfo(BasicInferencingConverter._noise_model_to_proto(noise_model_info))
        a_info = AnalogInfo(AnalogProto(**analog_info))
        return RPUconfigInfo(nm_info, a_info, None).create_inference_rpu_config(func_id)

    @staticmethod
    def _inferencing_to_proto(inference_repeats: int, inference_time: float, analog_info: Dict, noise_model_info: Dict):
        nm_info = BasicInferencingConverter._noise_model_to_proto(noise_model_info)
        a_info = AnalogProto(**analog_info)
        return Inferencing(inference_repeats=inference_repeats, inference_time=inference_time, analog_info=a_info, noise_model_info=nm_info)

    @staticmethod
    def _inference_info_from_proto(inference_pb: InferenceInput):
        inferencing = inference_pb.inferencing
        network = inference_pb.network
        return {'inference_repeats': inferencing.inference_repeats, 'inference_time': inferencing.inference_time, 'weight_template_id': network.weight_template_id}

    @staticmethod
    def _model_from_proto(network: Network, rc_info: RPUconfigInfo):
        layers = []
        for layer_proto in network.layers:
            if layer_proto.WhichOneof('item') == 'layer':
                layer_cls = InverseMappings.layers[layer_proto.layer.id]
                layer = Mappings.layers[layer_cls].from_proto(layer_proto.layer, layer_cls, {'rpu_config': rc_info})
            else:
                layer_cls = InverseMappings.activation_functions[layer_proto.activation_function.id]
                layer = Mappings.activation_functions[layer_cls].from_proto(layer_proto.activation_function, layer_cls)
            layers.append(layer)
        return AnalogSequential(*layers)

    @staticmethod
    def _analog_info_from_proto(analog_info: AnalogProto):
        return {'output_noise_strength': analog_info.output_noise_strength, 'adc': analog_info.adc, 'dac': analog_info.dac}

    @staticmethod
    def _noise_model_from_proto(noise_model_info: NoiseModelProto):
        extra = {}
        typ = noise_model_info.WhichOneof('item')
        if typ == 'pcm':
            info = noise_model_info.pcm
        elif typ == 'generic':
            info = noise_model_info.generic
            extra = {'drift_mean': info.drift_mean, 'drift_std': info.drift_std}
        else:
            raise TypeError
        base = {'device_id': typ, 'programming_noise_scale': info.programming_noise_scale, 'read_noise_scale': info.read_noise_scale, 'drift_scale': info.drift_scale, 'drift_compensation': info.drift_compensation, 'poly_first_order_coef': info.poly_first_order_coef, 'poly_second_order_coef': info.poly_second_order_coef, 'poly_constant_coef': info.poly_constant_coef}
        return {**base, **extra}



@of("aihwkit.cloud.converter.v1.inferencing.BasicInferencingResultConverter")
class BasicInferencingResultConverter:
    def to_proto(self, results: Dict):
        version = self._version_to_proto()
        inference_runs = self._runs_to_proto(results['inference_runs'])
        return InferencingOutput(version=version, inference_runs=inference_runs)

    @staticmethod
    def to_json_from_pb(inference_input: Any):
        i_runs = inference_input.inference_runs
        results = []
        for result in i_runs.inference_results:
            results.append({'t_inference': result.t_inference, 'avg_accuracy': result.avg_accuracy, 'std_accuracy': result.std_accuracy, 'avg_error': result.avg_error, 'avg_loss': result.avg_loss})
        inference_runs = {'inference_runs': {'inference_repeat': i_runs.inference_repeat, 'is_partial': i_runs.is_partial, 'time_elapsed': i_runs.time_elapsed, 'inference_results': results}}
        return inference_runs

    @staticmethod
    def result_from_proto(inference_input: Any):
        i_runs = inference_input.inference_runs
        results = []
        for result in i_runs.inference_results:
            results.append({'t_inference': result.t_inference, 'avg_accuracy': result.avg_accuracy, 'std_accuracy': result.std_accuracy, 'avg_error': result.avg_error, 'avg_loss': result.avg_loss})
        return results

    @staticmethod
    def to_json(results: Dict):
        return dict({'version': {'schema': 1, 'opset': 1}}, **results)

    @staticmethod
    def _version_to_proto():
        return Version(schema=1, opset=1)

    @staticmethod
    def _runs_to_proto(results: Dict):
        inference_repeat = results['inference_repeat']
        is_partial = results['is_partial']
        time_elapsed = results['time_elapsed']
        irp = InferenceRunsProto(inference_repeat=inference_repeat, is_partial=is_partial, time_elapsed=time_elapsed)
        i_results = results['inference_results']
        for result in i_results:
            irp.inference_results.append(InferenceResultsProto(t_inference=result['t_inference'], avg_accuracy=result['avg_accuracy'], std_accuracy=result['std_accuracy'], avg_error=result['avg_error'], avg_loss=result['avg_loss']))
        return irp



@of("aihwkit.cloud.converter.v1.rpu_config_info.RPUconfigInfo")
class RPUconfigInfo:
    def __init__(self, nm_info: NoiseModelInfo, a_info: AnalogInfo, layers: Any=None):
        self._noise_model_info = nm_info
        self._analog_info = a_info
        self._layers = layers
        self._device_id = ''

    @staticmethod
    def _get_common_rpucfg_name(layers: Any):
        if layers is None:
            return 'WebComposerInferenceRPUConfig'
        names: Dict[str, int] = {}
        for layer_proto in layers:
            if layer_proto.WhichOneof('item') == 'layer':
                layer = layer_proto.layer
                if layer.id.startswith('Analog'):
                    for argument in layer.arguments:
                        if argument.name == 'rpu_config':
                            arg_value = getattr(argument, 's')
                            if arg_value in names:
                                names[arg_value] += 1
                            else:
                                names[arg_value] = 1
        if len(names) > 1:
            print(f'>>> ERROR: more than one rpu_config: {names}')
            return None
        if len(names) == 1:
            return list(names.keys())[0].decode('UTF-8')
        print('>>> INFO: experiment has not analog layers')
        return ''

    def _print_rpu_config(self, rpu_config: InferenceRPUConfig, func_id: str, dev_id: str):
        print_order = OrderedDict({('forward.out_noise', rpu_config.forward.out_noise), ('forward.out_res/adc', '{}/{}'.format(rpu_config.forward.out_res, self._analog_info.adc)), ('forward.inp_res/dac', '{}/{}'.format(rpu_config.forward.inp_res, self._analog_info.dac)), ('noise_model', rpu_config.noise_model), ('noise_model.read_noise_scale', rpu_config.noise_model.read_noise_scale), ('noise_model.prog_noise_scale', rpu_config.noise_model.prog_noise_scale), ('drift_compensation', rpu_config.drift_compensation), ('noise_model.drift_scale', rpu_config.noise_model.drift_scale)})
        if dev_id == NoiseModelInfo.GENERIC:
            print_order['noise_model.drift_nu_mean'] = rpu_config.noise_model.drift_nu_mean
            print_order['noise_model.drift_nu_std'] = rpu_config.noise_model.drift_nu_std
        output = '  rpu_config: function_id={} device_id={}\n'.format(func_id, dev_id)
        for key in print_order:
            output += '    {:30}: {}\n'.format(key, print_order[key])
            if key == 'noise_model' and dev_id == NoiseModelInfo.PCM:
                for i in range(3):
                    field_name = 'noise_model.prog_coeff[{}]'.format(i)
                    output += '    {:30}: {}\n'.format(field_name, rpu_config.noise_model.prog_coeff[i])
        print('Here is the variable content of the rpu_config:\n{}'.format(output))

    def create_inference_rpu_config(self, func_id: str, verbose: bool=False):
        rpu_class_name = self._get_common_rpucfg_name(self._layers)
        print(f'>>> INFO: rpu_class_name={rpu_class_name}')
        if rpu_class_name is None or len(rpu_class_name) == 0:
            raise ConfigError('class name error. see previous messages')
        rpu_config_class = None
        if rpu_class_name in RPU_CLASSES:
            rpu_config_class = RPU_CLASSES[rpu_class_name]
        else:
            raise ConfigError(f"rpu class name '{rpu_class_name}' not one of '{RPU_CLASSES.keys()}'")
        rpu_config = rpu_config_class()
        rpu_config.forward.out_noise = self._analog_info.output_noise_strength
        rpu_config.forward.out_res = 1.0 / (2 ** self._analog_info.adc - 2)
        rpu_config.forward.inp_res = 1.0 / (2 ** self._analog_info.dac - 2)
        self._device_id = self._noise_model_info.device_id
        if self._device_id == NoiseModelInfo.PCM:
            rpu_config.noise_model = PCMLikeNoiseModel(g_max=25.0, prog_coeff=[self._noise_model_info.poly_constant_coef, self._noise_model_info.poly_first_order_coef, self._noise_model_info.poly_second_order_coef])
        elif self._device_id == NoiseModelInfo.GENERIC:
            rpu_config.noise_model = StateIndependentNoiseModel(g_max=25.0, prog_coeff=[self._noise_model_info.poly_constant_coef, self._noise_model_info.poly_first_order_coef, self._noise_model_info.poly_second_order_coef])
            rpu_config.noise_model.drift_nu_mean = self._noise_model_info.drift_mean
            rpu_config.noise_model.drift_nu_std = self._noise_model_info.drift_std
        else:
            raise NoiseModelDeviceIDException('invalid noise model device id {}'.format(self._device_id))
        rpu_config.noise_model.prog_noise_scale = self._noise_model_info.programming_noise_scale
        rpu_config.noise_model.read_noise_scale = self._noise_model_info.read_noise_scale
        rpu_config.drift_compensation = None
        if self._noise_model_info.drift_compensation:
            rpu_config.drift_compensation = GlobalDriftCompensation()
        rpu_config.noise_model.drift_scale = self._noise_model_info.drift_scale
        if verbose:
            self._print_rpu_config(rpu_config, func_id, self._noise_model_info.device_id)
        return rpu_config



@of("aihwkit.cloud.converter.v1.noise_model_info.NoiseModelInfo")
class NoiseModelInfo:
    def __init__(self, nm_proto: NoiseModelProto):
        type_ = nm_proto.WhichOneof('item')
        info = None
        if type_ == 'pcm':
            info = nm_proto.pcm
        else:
            info = nm_proto.generic
        self.device_id = info.device_id
        self.programming_noise_scale = info.programming_noise_scale
        self.read_noise_scale = info.read_noise_scale
        self.drift_scale = info.drift_scale
        self.drift_compensation = info.drift_compensation
        self.poly_first_order_coef = info.poly_first_order_coef
        self.poly_second_order_coef = info.poly_second_order_coef
        self.poly_constant_coef = info.poly_constant_coef
        self._drift_mean = -1.1
        self._drift_std = -1.1
        if info.device_id == self.GENERIC:
            self._drift_mean = info.drift_mean
            self._drift_std = info.drift_std

    def _assert_generic(self):
        assert self.device_id == self.GENERIC, "device_id does not have value '{}'".format(self.GENERIC)

    @property
    def drift_mean(self):
        self._assert_generic()
        return self._drift_mean

    @property
    def drift_std(self):
        self._assert_generic()
        return self._drift_std



@of("aihwkit.cloud.converter.v1.analog_info.AnalogInfo")
class AnalogInfo:
    def __init__(self, a_info: AnalogProto):
        self.output_noise_strength = a_info.output_noise_strength
        self.adc = a_info.adc
        self.dac = a_info.dac



@of("aihwkit.cloud.client.session.ObjectStorageSession")
class ObjectStorageSession:
    def request(self, method: str, url: Union[str, bytes, Text], *args: Any, **kwargs: Any):
        response = super().request(method, url, *args, **kwargs)
        try:
            response.raise_for_status()
        except HTTPError:
            raise ResponseError(response) from None
        return response



@of("aihwkit.cloud.client.session.ApiSession")
class ApiSession:
    def __init__(self, api_url: str, api_token: str, verify: bool=True):
        super().__init__()
        self.api_url = api_url
        self.api_token = api_token
        self.verify = verify
        if not verify:
            urllib3.disable_warnings(InsecureRequestWarning)
        self.jwt_token = None
        self.headers.update({'User-Agent': 'aihwkit/{}'.format(__version__)})

    def update_jwt_token(self, jwt_token: str):
        self.jwt_token = jwt_token
        self.headers.update({'Authorization': 'Bearer {}'.format(jwt_token)})

    def request(self, method: str, url: Union[str, bytes, Text], *args: Any, **kwargs: Any):
        full_url = '{}/{}'.format(self.api_url, str(url))
        response = super().request(method, full_url, *args, **kwargs)
        try:
            response.raise_for_status()
        except HTTPError:
            raise ApiResponseError(response) from None
        return response



@of("aihwkit.cloud.client.entities.CloudExperiment")
class CloudExperiment:
    def get_experiment(self):
        if self.status() == CloudJobStatus.UNKNOWN:
            raise ExperimentStatusError('Experiment input is not available')
        input_ = self._api_client.input_get(self.input_id)
        if 'InferenceRPUConfig' in str(input_):
            input_proto = InferenceInput()
            input_proto.ParseFromString(input_)
            proto = BasicInferencingConverter().from_proto(input_proto)
        else:
            input_proto = TrainingInput()
            input_proto.ParseFromString(input_)
            proto = BasicTrainingConverter().from_proto(input_proto)
        return proto

    def get_result(self):
        if self.status() != CloudJobStatus.COMPLETED:
            raise ExperimentStatusError('Output cannot be retrieved unless the experiment is completed')
        if self.category == CloudExperimentCategory.BASIC_TRAINING:
            output_ = self._api_client.output_get(self.job.output_id)
            training_output = TrainingOutput()
            training_output.ParseFromString(output_)
            converter = BasicTrainingResultConverter()
            output = converter.from_proto(training_output)
            return output['epochs']
        if self.category == CloudExperimentCategory.BASIC_INFERENCE:
            output_ = self._api_client.output_get(self.job.output_id)
            inferencing_output = InferencingOutput()
            inferencing_output.ParseFromString(output_)
            iconverter = BasicInferencingResultConverter()
            i_output = iconverter.result_from_proto(inferencing_output)
            return i_output

    def status(self):
        if not self.job:
            tmp_experiment = self._api_client.experiment_get(self.id_)
            self.input_id = tmp_experiment.input_id
            self.job = tmp_experiment.job
        if not self.job:
            return CloudJobStatus.UNKNOWN
        if self.job.status == CloudJobStatus.COMPLETED and self.job.output_id:
            return CloudJobStatus.COMPLETED
        if self.job.status == CloudJobStatus.FAILED:
            return CloudJobStatus.FAILED
        self.job = self._api_client.job_get(self.job.id_)
        return self.job.status



@of("aihwkit.cloud.client.utils.ClientConfiguration")
class ClientConfiguration:
    def __init__(self):
        self.stored_config = self.parse_config()

    def parse_config(self):
        parser = ConfigParser()
        parser.read(['aihwkit.conf', path.expanduser('{}/aihwkit/aihwkit.conf'.format(getenv('XDG_CONFIG_HOME', '~/.config')))])
        if 'cloud' in parser:
            return dict(parser['cloud'])
        return {}

    @property
    def token(self):
        return getenv('AIHW_API_TOKEN', self.stored_config.get('api_token', None))

    @property
    def url(self):
        return self.stored_config.get('api_url', DEFAULT_URL)



@of("aihwkit.cloud.client.v1.parsers.ExperimentParser")
class ExperimentParser:
    @staticmethod
    def parse_experiment(api_response: Dict, api_client: Any):
        experiment = CloudExperiment(_api_client=api_client, id_=api_response['id'], name=api_response['name'], category=ExperimentParser.parse_experiment_category(api_response), created_at=ExperimentParser.parse_date_string(api_response['createdAt']), input_id=None, job=None)
        if api_response.get('input'):
            if api_response.get('input', {}).get('id'):
                experiment.input_id = api_response['input']['id']
        if api_response.get('job', None):
            experiment.job = ExperimentParser.parse_job(api_response['job'])
        return experiment

    @staticmethod
    def parse_job(api_response: Dict):
        job = CloudJob(id_=api_response['id'], output_id=None, status=ExperimentParser.parse_experiment_status(api_response))
        if api_response.get('output', None):
            job.output_id = api_response['output']
        return job

    @staticmethod
    def parse_experiment_status(api_response: Dict):
        job_status = api_response['status']
        if job_status in ('waiting', 'validating', 'validated'):
            return CloudJobStatus.WAITING
        if job_status in ('running',):
            return CloudJobStatus.RUNNING
        if job_status in ('failed', 'cancelled'):
            return CloudJobStatus.FAILED
        if job_status in ('completed',):
            return CloudJobStatus.COMPLETED
        raise InvalidResponseFieldError('Unsupported job status: {}'.format(job_status))

    @staticmethod
    def parse_experiment_category(api_response: Dict):
        job_category = api_response['category']
        if job_category in ('train', 'trainweb'):
            return CloudExperimentCategory.BASIC_TRAINING
        if job_category in ('inference', 'inferenceweb'):
            return CloudExperimentCategory.BASIC_INFERENCE
        raise InvalidResponseFieldError('Unsupported experiment category: {}'.format(job_category))

    @staticmethod
    def parse_date_string(date_string: str):
        tmp_datetime = datetime.strptime(date_string, '%Y-%m-%dT%H:%M:%S.%fZ')
        return tmp_datetime.replace(tzinfo=timezone.utc)



@of("aihwkit.cloud.client.v1.parsers.GeneralParser")
class GeneralParser:
    @staticmethod
    def parse_login(api_response: Dict):
        return api_response['jwt']



@of("aihwkit.cloud.client.v1.api_client.ApiClient")
class ApiClient:
    def __init__(self, session: ApiSession):
        self.session = session
        self.object_storage_session = ObjectStorageSession()
        self.converter = BasicTrainingConverter()
        self.experiments = ExperimentStub(self.session)
        self.inputs = InputStub(self.session)
        self.outputs = OutputStub(self.session)
        self.jobs = JobStub(self.session)
        self.login_ = LoginStub(self.session)
        self.login()

    def login(self):
        try:
            response = self.login_.post({'token': self.session.api_token})
        except ApiResponseError as ex:
            if ex.response.status_code == 400:
                try:
                    json_response = ex.response.json()
                except Exception:
                    json_response = {}
                raise CredentialsError('Error while trying to log in: {}'.format(json_response.get('message', 'unknown'))) from ex
            raise
        jwt_token = GeneralParser.parse_login(response)
        self.session.update_jwt_token(jwt_token)

    def experiments_list(self):
        response = self.experiments.list()
        return [ExperimentParser.parse_experiment(experiment, self) for experiment in response]

    def experiment_create(self, input_: BasicTraining, name: str, device: str='gpu'):
        payload = self.converter.to_proto(input_).SerializeToString()
        response = self.experiments.post({'name': name, 'category': 'train'})
        experiment = ExperimentParser.parse_experiment(response, self)
        response = self.inputs.post({'experiment': experiment.id_, 'device': device})
        object_storage_url = response['url']
        _ = self.object_storage_session.put(url=object_storage_url, data=payload)
        response = self.jobs.post({'device': device, 'experiment': experiment.id_})
        experiment.job = ExperimentParser.parse_job(response)
        return experiment

    def experiment_get(self, experiment_id: str):
        response = self.experiments.get(experiment_id)
        return ExperimentParser.parse_experiment(response, self)

    def job_get(self, job_id: str):
        response = self.jobs.get(job_id)
        return ExperimentParser.parse_job(response)

    def input_get(self, input_id: str):
        response = self.inputs.get(input_id)
        object_storage_url = response['url']
        object_storage_response = self.object_storage_session.get(object_storage_url)
        return object_storage_response.content

    def output_get(self, output_id: str):
        response = self.outputs.get(output_id)
        object_storage_url = response['url']
        object_storage_response = self.object_storage_session.get(object_storage_url)
        return object_storage_response.content



@of("aihwkit.cloud.client.v1.i_api_client.InferenceApiClient")
class InferenceApiClient:
    def __init__(self, session: ApiSession):
        self.session = session
        self.object_storage_session = ObjectStorageSession()
        self.converter = BasicInferencingConverter()
        self.experiments = ExperimentStub(self.session)
        self.inputs = InputStub(self.session)
        self.outputs = OutputStub(self.session)
        self.jobs = JobStub(self.session)
        self.login_ = LoginStub(self.session)
        self.login()

    def login(self):
        try:
            response = self.login_.post({'token': self.session.api_token})
        except ApiResponseError as ex:
            if ex.response.status_code == 400:
                try:
                    json_response = ex.response.json()
                except Exception:
                    json_response = {}
                raise CredentialsError('Error while trying to log in: {}'.format(json_response.get('message', 'unknown'))) from ex
            raise
        jwt_token = GeneralParser.parse_login(response)
        self.session.update_jwt_token(jwt_token)

    def experiments_list(self):
        response = self.experiments.list()
        return [ExperimentParser.parse_experiment(experiment, self) for experiment in response]

    def experiment_create(self, input_: BasicInferencing, analog_info: Dict, noise_model_info: Dict, name: str, device: str='gpu'):
        payload = self.converter.to_proto(input_, analog_info, noise_model_info).SerializeToString()
        response = self.experiments.post({'name': name, 'category': 'inference'})
        experiment = ExperimentParser.parse_experiment(response, self)
        response = self.inputs.post({'experiment': experiment.id_, 'device': device})
        object_storage_url = response['url']
        _ = self.object_storage_session.put(url=object_storage_url, data=payload)
        response = self.jobs.post({'device': device, 'experiment': experiment.id_})
        experiment.job = ExperimentParser.parse_job(response)
        return experiment

    def experiment_get(self, experiment_id: str):
        response = self.experiments.get(experiment_id)
        return ExperimentParser.parse_experiment(response, self)

    def job_get(self, job_id: str):
        response = self.jobs.get(job_id)
        return ExperimentParser.parse_job(response)

    def input_get(self, input_id: str):
        response = self.inputs.get(input_id)
        object_storage_url = response['url']
        object_storage_response = self.object_storage_session.get(object_storage_url)
        return object_storage_response.content

    def output_get(self, output_id: str):
        response = self.outputs.get(output_id)
        object_storage_url = response['url']
        object_storage_response = self.object_storage_session.get(object_storage_url)
        return object_storage_response.content



@of("aihwkit.cloud.client.v1.stubs.ApiStub")
class ApiStub:
    def __init__(self, session: ApiSession):
        self.session = session
        self.endpoints = self._endpoint_map()

    def _endpoint_map(self):
        return {'list': Endpoint(self.base_url, 'GET'), 'get': Endpoint('{}/{{}}'.format(self.base_url), 'GET'), 'post': Endpoint(self.base_url, 'POST')}

    def list(self):
        endpoint = self.endpoints['list']
        return self.session.request(method=endpoint.method, url=endpoint.url).json()

    def get(self, object_id: str):
        endpoint = self.endpoints['get']
        return self.session.request(method=endpoint.method, url=endpoint.url.format(object_id)).json()

    def post(self, content: Dict):
        endpoint = self.endpoints['post']
        return self.session.request(method=endpoint.method, url=endpoint.url, json=content).json()



@of("aihwkit.cloud.client.v1.stubs.ExperimentStub")
class ExperimentStub:
    def _endpoint_map(self):
        ret = super()._endpoint_map()
        ret['list'] = Endpoint('{}/me'.format(self.base_url), 'GET')
        return ret



@of("aihwkit.cloud.client.v1.stubs.InputStub")
class InputStub:
    def _endpoint_map(self):
        ret = super()._endpoint_map()
        ret['get'] = Endpoint('{}/{{}}/file'.format(self.base_url), 'GET')
        return ret



@of("aihwkit.cloud.client.v1.stubs.OutputStub")
class OutputStub:
    def _endpoint_map(self):
        ret = super()._endpoint_map()
        ret['get'] = Endpoint('{}/{{}}/file'.format(self.base_url), 'GET')
        return ret



@of("aihwkit.cloud.client.exceptions.ApiResponseError")
class ApiResponseError:
    @staticmethod
    def _sanitize_url(url: str):
        parts = urlparse(url)
        return '{}{}'.format(parts.path, '?...' if parts.query else '')



@of("aihwkit.cloud.client.exceptions.ResponseError")
class ResponseError:
    def __init__(self, response: Response):
        self.response = response
        self.url = self._sanitize_url(response.url)
        super().__init__(str(self))

    @staticmethod
    def _sanitize_url(url: str):
        return url




value("aihwkit.cloud.client.utils.DEFAULT_URL", 'https://api-aihw-composer.draco.res.ibm.com')


@of("aihwkit.cloud.client.v1.stubs.ApiStub")
class ApiStub:
    base_url = ''


@of("aihwkit.cloud.client.v1.stubs.ExperimentStub")
class ExperimentStub:
    base_url = 'experiments'


@of("aihwkit.cloud.client.v1.stubs.InputStub")
class InputStub:
    base_url = 'inputs'


@of("aihwkit.cloud.client.v1.stubs.OutputStub")
class OutputStub:
    base_url = 'outputs'


@of("aihwkit.cloud.client.v1.stubs.JobStub")
class JobStub:
    base_url = 'jobs'


@of("aihwkit.cloud.client.v1.stubs.LoginStub")
class LoginStub:
    base_url = 'token/login'


value("aihwkit.cloud.converter.v1.i_mappings.TYPES", {int: Type(AttributeProto.AttributeType.INT, 'i', lambda x: x), bool: Type(AttributeProto.AttributeType.BOOL, 'b', lambda x: x), str: Type(AttributeProto.AttributeType.STRING, 's', lambda x: x.encode('utf-8')), float: Type(AttributeProto.AttributeType.FLOAT, 'f', lambda x: x)})


value("aihwkit.cloud.converter.v1.i_mappings.TYPES_LISTS", {int: Type(AttributeProto.AttributeType.INTS, 'ints', lambda x: x), bool: Type(AttributeProto.AttributeType.BOOLS, 'bools', lambda x: x), str: Type(AttributeProto.AttributeType.STRINGS, 'strings', lambda x: [y.encode('utf-8') for y in x]), float: Type(AttributeProto.AttributeType.FLOATS, 'floats', lambda x: x)})


@of("aihwkit.cloud.converter.v1.i_mappings.Mappings")
class Mappings:
    datasets = {FashionMNIST: 'fashion_mnist', SVHN: 'svhn'}
    layers = {AnalogConv2d: LayerFunction('AnalogConv2d', {'in_channels': int, 'out_channels': int, 'kernel_size': [int], 'stride': [int], 'padding': [int], 'dilation': [int], 'bias': bool, 'rpu_config': str}), AnalogConv2dMapped: LayerFunction('AnalogConv2dMapped', {'in_channels': int, 'out_channels': int, 'kernel_size': [int], 'stride': [int], 'padding': [int], 'dilation': [int], 'bias': bool, 'rpu_config': str}), AnalogLinear: LayerFunction('AnalogLinear', {'in_features': int, 'out_features': int, 'bias': bool, 'rpu_config': str}), AnalogLinearMapped: LayerFunction('AnalogLinearMapped', {'in_features': int, 'out_features': int, 'bias': bool, 'rpu_config': str}), BatchNorm2d: LayerFunction('BatchNorm2d', {'num_features': int}), Conv2d: LayerFunction('Conv2d', {'in_channels': int, 'out_channels': int, 'kernel_size': [int], 'stride': [int], 'padding': [int], 'dilation': [int], 'bias': bool}), ConvTranspose2d: LayerFunction('ConvTranspose2d', {'in_channels': int, 'out_channels': int, 'kernel_size': [int], 'stride': [int], 'padding': [int], 'output_padding': [int], 'dilation': [int], 'bias': bool}), Flatten: LayerFunction('Flatten', {}), Linear: LayerFunction('Linear', {'in_features': int, 'out_features': int, 'bias': bool}), MaxPool2d: LayerFunction('MaxPool2d', {'kernel_size': int, 'stride': int, 'padding': int, 'dilation': int, 'ceil_mode': bool})}
    activation_functions = {LeakyReLU: Function('LeakyReLU', {'negative_slope': float}), LogSigmoid: Function('LogSigmoid', {}), LogSoftmax: Function('LogSoftmax', {'dim': int}), ReLU: Function('ReLU', {}), Sigmoid: Function('Sigmoid', {}), Softmax: Function('Softmax', {'dim': int}), Tanh: Function('Tanh', {})}
    loss_functions = {BCELoss: Function('BCELoss', {}), CrossEntropyLoss: Function('CrossEntropyLoss', {}), MSELoss: Function('MSELoss', {}), NLLLoss: Function('NLLLoss', {})}
    optimizers = {AnalogSGD: Function('AnalogSGD', {'lr': float})}
    presets = {InferenceRPUConfig: 'InferenceRPUConfig', OldWebComposerInferenceRPUConfig: 'OldWebComposerInferenceRPUConfig', WebComposerInferenceRPUConfig: 'WebComposerInferenceRPUConfig'}


@of("aihwkit.cloud.converter.v1.i_mappings.InverseMappings")
class InverseMappings:
    datasets = build_inverse_mapping(Mappings.datasets)
    layers = build_inverse_mapping(Mappings.layers)
    activation_functions = build_inverse_mapping(Mappings.activation_functions)
    loss_functions = build_inverse_mapping(Mappings.loss_functions)
    optimizers = build_inverse_mapping(Mappings.optimizers)
    presets = build_inverse_mapping(Mappings.presets)


value("aihwkit.cloud.converter.v1.mappings.TYPES", {int: Type(AttributeProto.AttributeType.INT, 'i', lambda x: x), bool: Type(AttributeProto.AttributeType.BOOL, 'b', lambda x: x), str: Type(AttributeProto.AttributeType.STRING, 's', lambda x: x.encode('utf-8')), float: Type(AttributeProto.AttributeType.FLOAT, 'f', lambda x: x)})


value("aihwkit.cloud.converter.v1.mappings.TYPES_LISTS", {int: Type(AttributeProto.AttributeType.INTS, 'ints', lambda x: x), bool: Type(AttributeProto.AttributeType.BOOLS, 'bools', lambda x: x), str: Type(AttributeProto.AttributeType.STRINGS, 'strings', lambda x: [y.encode('utf-8') for y in x]), float: Type(AttributeProto.AttributeType.FLOATS, 'floats', lambda x: x)})


@of("aihwkit.cloud.converter.v1.mappings.Mappings")
class Mappings:
    datasets = {FashionMNIST: 'fashion_mnist', SVHN: 'svhn'}
    layers = {AnalogConv2d: LayerFunction('AnalogConv2d', {'in_channels': int, 'out_channels': int, 'kernel_size': [int], 'stride': [int], 'padding': [int], 'dilation': [int], 'bias': bool, 'rpu_config': str, 'weight_scaling_omega': float}), AnalogLinear: LayerFunction('AnalogLinear', {'in_features': int, 'out_features': int, 'bias': bool, 'rpu_config': str, 'weight_scaling_omega': float}), BatchNorm2d: LayerFunction('BatchNorm2d', {'num_features': int}), Conv2d: LayerFunction('Conv2d', {'in_channels': int, 'out_channels': int, 'kernel_size': [int], 'stride': [int], 'padding': [int], 'dilation': [int], 'bias': bool}), ConvTranspose2d: LayerFunction('ConvTranspose2d', {'in_channels': int, 'out_channels': int, 'kernel_size': [int], 'stride': [int], 'padding': [int], 'output_padding': [int], 'dilation': [int], 'bias': bool}), Flatten: LayerFunction('Flatten', {}), Linear: LayerFunction('Linear', {'in_features': int, 'out_features': int, 'bias': bool}), MaxPool2d: LayerFunction('MaxPool2d', {'kernel_size': int, 'stride': int, 'padding': int, 'dilation': int, 'ceil_mode': bool})}
    activation_functions = {LeakyReLU: Function('LeakyReLU', {'negative_slope': float}), LogSigmoid: Function('LogSigmoid', {}), LogSoftmax: Function('LogSoftmax', {'dim': int}), ReLU: Function('ReLU', {}), Sigmoid: Function('Sigmoid', {}), Softmax: Function('Softmax', {'dim': int}), Tanh: Function('Tanh', {})}
    loss_functions = {BCELoss: Function('BCELoss', {}), CrossEntropyLoss: Function('CrossEntropyLoss', {}), MSELoss: Function('MSELoss', {}), NLLLoss: Function('NLLLoss', {})}
    optimizers = {AnalogSGD: Function('AnalogSGD', {'lr': float})}
    presets = {ReRamESPreset: 'ReRamESPreset', ReRamSBPreset: 'ReRamSBPreset', CapacitorPreset: 'CapacitorPreset', EcRamPreset: 'EcRamPreset', IdealizedPreset: 'IdealizedPreset', PCMPreset: 'PCMPreset', MixedPrecisionReRamESPreset: 'MixedPrecisionReRamESPreset', MixedPrecisionReRamSBPreset: 'MixedPrecisionReRamSBPreset', MixedPrecisionCapacitorPreset: 'MixedPrecisionCapacitorPreset', MixedPrecisionEcRamPreset: 'MixedPrecisionEcRamPreset', MixedPrecisionIdealizedPreset: 'MixedPrecisionIdealizedPreset', MixedPrecisionPCMPreset: 'MixedPrecisionPCMPreset', TikiTakaReRamESPreset: 'TikiTakaReRamESPreset', TikiTakaReRamSBPreset: 'TikiTakaReRamSBPreset', TikiTakaCapacitorPreset: 'TikiTakaCapacitorPreset', TikiTakaEcRamPreset: 'TikiTakaEcRamPreset', TikiTakaIdealizedPreset: 'TikiTakaIdealizedPreset'}


@of("aihwkit.cloud.converter.v1.mappings.InverseMappings")
class InverseMappings:
    datasets = build_inverse_mapping(Mappings.datasets)
    layers = build_inverse_mapping(Mappings.layers)
    activation_functions = build_inverse_mapping(Mappings.activation_functions)
    loss_functions = build_inverse_mapping(Mappings.loss_functions)
    optimizers = build_inverse_mapping(Mappings.optimizers)
    presets = build_inverse_mapping(Mappings.presets)


@of("aihwkit.cloud.converter.v1.noise_model_info.NoiseModelInfo")
class NoiseModelInfo:
    PCM = 'pcm'
    GENERIC = 'generic'


value("aihwkit.cloud.converter.v1.rpu_config_info.RPU_CLASSES", {'InferenceRPUConfig': InferenceRPUConfig, 'WebComposerInferenceRPUConfig': WebComposerInferenceRPUConfig, 'OldWebComposerInferenceRPUConfig': OldWebComposerInferenceRPUConfig})



value("aihwkit.cloud.converter.v1.i_mappings.TYPES", {int: Type(AttributeProto.AttributeType.INT, 'i', lambda x: x), bool: Type(AttributeProto.AttributeType.BOOL, 'b', lambda x: x), str: Type(AttributeProto.AttributeType.STRING, 's', lambda x: x.encode('utf-8')), float: Type(AttributeProto.AttributeType.FLOAT, 'f', lambda x: x)})


value("aihwkit.cloud.converter.v1.i_mappings.TYPES_LISTS", {int: Type(AttributeProto.AttributeType.INTS, 'ints', lambda x: x), bool: Type(AttributeProto.AttributeType.BOOLS, 'bools', lambda x: x), str: Type(AttributeProto.AttributeType.STRINGS, 'strings', lambda x: [y.encode('utf-8') for y in x]), float: Type(AttributeProto.AttributeType.FLOATS, 'floats', lambda x: x)})


@of("aihwkit.cloud.converter.v1.i_mappings.Mappings")
class Mappings:
    datasets = {FashionMNIST: 'fashion_mnist', SVHN: 'svhn'}
    layers = {AnalogConv2d: LayerFunction('AnalogConv2d', {'in_channels': int, 'out_channels': int, 'kernel_size': [int], 'stride': [int], 'padding': [int], 'dilation': [int], 'bias': bool, 'rpu_config': str}), AnalogConv2dMapped: LayerFunction('AnalogConv2dMapped', {'in_channels': int, 'out_channels': int, 'kernel_size': [int], 'stride': [int], 'padding': [int], 'dilation': [int], 'bias': bool, 'rpu_config': str}), AnalogLinear: LayerFunction('AnalogLinear', {'in_features': int, 'out_features': int, 'bias': bool, 'rpu_config': str}), AnalogLinearMapped: LayerFunction('AnalogLinearMapped', {'in_features': int, 'out_features': int, 'bias': bool, 'rpu_config': str}), BatchNorm2d: LayerFunction('BatchNorm2d', {'num_features': int}), Conv2d: LayerFunction('Conv2d', {'in_channels': int, 'out_channels': int, 'kernel_size': [int], 'stride': [int], 'padding': [int], 'dilation': [int], 'bias': bool}), ConvTranspose2d: LayerFunction('ConvTranspose2d', {'in_channels': int, 'out_channels': int, 'kernel_size': [int], 'stride': [int], 'padding': [int], 'output_padding': [int], 'dilation': [int], 'bias': bool}), Flatten: LayerFunction('Flatten', {}), Linear: LayerFunction('Linear', {'in_features': int, 'out_features': int, 'bias': bool}), MaxPool2d: LayerFunction('MaxPool2d', {'kernel_size': int, 'stride': int, 'padding': int, 'dilation': int, 'ceil_mode': bool})}
    activation_functions = {LeakyReLU: Function('LeakyReLU', {'negative_slope': float}), LogSigmoid: Function('LogSigmoid', {}), LogSoftmax: Function('LogSoftmax', {'dim': int}), ReLU: Function('ReLU', {}), Sigmoid: Function('Sigmoid', {}), Softmax: Function('Softmax', {'dim': int}), Tanh: Function('Tanh', {})}
    loss_functions = {BCELoss: Function('BCELoss', {}), CrossEntropyLoss: Function('CrossEntropyLoss', {}), MSELoss: Function('MSELoss', {}), NLLLoss: Function('NLLLoss', {})}
    optimizers = {AnalogSGD: Function('AnalogSGD', {'lr': float})}
    presets = {InferenceRPUConfig: 'InferenceRPUConfig', OldWebComposerInferenceRPUConfig: 'OldWebComposerInferenceRPUConfig', WebComposerInferenceRPUConfig: 'WebComposerInferenceRPUConfig'}


@of("aihwkit.cloud.converter.v1.i_mappings.InverseMappings")
class InverseMappings:
    datasets = build_inverse_mapping(Mappings.datasets)
    layers = build_inverse_mapping(Mappings.layers)
    activation_functions = build_inverse_mapping(Mappings.activation_functions)
    loss_functions = build_inverse_mapping(Mappings.loss_functions)
    optimizers = build_inverse_mapping(Mappings.optimizers)
    presets = build_inverse_mapping(Mappings.presets)


value("aihwkit.cloud.converter.v1.mappings.TYPES", {int: Type(AttributeProto.AttributeType.INT, 'i', lambda x: x), bool: Type(AttributeProto.AttributeType.BOOL, 'b', lambda x: x), str: Type(AttributeProto.AttributeType.STRING, 's', lambda x: x.encode('utf-8')), float: Type(AttributeProto.AttributeType.FLOAT, 'f', lambda x: x)})


value("aihwkit.cloud.converter.v1.mappings.TYPES_LISTS", {int: Type(AttributeProto.AttributeType.INTS, 'ints', lambda x: x), bool: Type(AttributeProto.AttributeType.BOOLS, 'bools', lambda x: x), str: Type(AttributeProto.AttributeType.STRINGS, 'strings', lambda x: [y.encode('utf-8') for y in x]), float: Type(AttributeProto.AttributeType.FLOATS, 'floats', lambda x: x)})


@of("aihwkit.cloud.converter.v1.mappings.Mappings")
class Mappings:
    datasets = {FashionMNIST: 'fashion_mnist', SVHN: 'svhn'}
    layers = {AnalogConv2d: LayerFunction('AnalogConv2d', {'in_channels': int, 'out_channels': int, 'kernel_size': [int], 'stride': [int], 'padding': [int], 'dilation': [int], 'bias': bool, 'rpu_config': str, 'weight_scaling_omega': float}), AnalogLinear: LayerFunction('AnalogLinear', {'in_features': int, 'out_features': int, 'bias': bool, 'rpu_config': str, 'weight_scaling_omega': float}), BatchNorm2d: LayerFunction('BatchNorm2d', {'num_features': int}), Conv2d: LayerFunction('Conv2d', {'in_channels': int, 'out_channels': int, 'kernel_size': [int], 'stride': [int], 'padding': [int], 'dilation': [int], 'bias': bool}), ConvTranspose2d: LayerFunction('ConvTranspose2d', {'in_channels': int, 'out_channels': int, 'kernel_size': [int], 'stride': [int], 'padding': [int], 'output_padding': [int], 'dilation': [int], 'bias': bool}), Flatten: LayerFunction('Flatten', {}), Linear: LayerFunction('Linear', {'in_features': int, 'out_features': int, 'bias': bool}), MaxPool2d: LayerFunction('MaxPool2d', {'kernel_size': int, 'stride': int, 'padding': int, 'dilation': int, 'ceil_mode': bool})}
    activation_functions = {LeakyReLU: Function('LeakyReLU', {'negative_slope': float}), LogSigmoid: Function('LogSigmoid', {}), LogSoftmax: Function('LogSoftmax', {'dim': int}), ReLU: Function('ReLU', {}), Sigmoid: Function('Sigmoid', {}), Softmax: Function('Softmax', {'dim': int}), Tanh: Function('Tanh', {})}
    loss_functions = {BCELoss: Function('BCELoss', {}), CrossEntropyLoss: Function('CrossEntropyLoss', {}), MSELoss: Function('MSELoss', {}), NLLLoss: Function('NLLLoss', {})}
    optimizers = {AnalogSGD: Function('AnalogSGD', {'lr': float})}
    presets = {ReRamESPreset: 'ReRamESPreset', ReRamSBPreset: 'ReRamSBPreset', CapacitorPreset: 'CapacitorPreset', EcRamPreset: 'EcRamPreset', IdealizedPreset: 'IdealizedPreset', PCMPreset: 'PCMPreset', MixedPrecisionReRamESPreset: 'MixedPrecisionReRamESPreset', MixedPrecisionReRamSBPreset: 'MixedPrecisionReRamSBPreset', MixedPrecisionCapacitorPreset: 'MixedPrecisionCapacitorPreset', MixedPrecisionEcRamPreset: 'MixedPrecisionEcRamPreset', MixedPrecisionIdealizedPreset: 'MixedPrecisionIdealizedPreset', MixedPrecisionPCMPreset: 'MixedPrecisionPCMPreset', TikiTakaReRamESPreset: 'TikiTakaReRamESPreset', TikiTakaReRamSBPreset: 'TikiTakaReRamSBPreset', TikiTakaCapacitorPreset: 'TikiTakaCapacitorPreset', TikiTakaEcRamPreset: 'TikiTakaEcRamPreset', TikiTakaIdealizedPreset: 'TikiTakaIdealizedPreset'}


@of("aihwkit.cloud.converter.v1.mappings.InverseMappings")
class InverseMappings:
    datasets = build_inverse_mapping(Mappings.datasets)
    layers = build_inverse_mapping(Mappings.layers)
    activation_functions = build_inverse_mapping(Mappings.activation_functions)
    loss_functions = build_inverse_mapping(Mappings.loss_functions)
    optimizers = build_inverse_mapping(Mappings.optimizers)
    presets = build_inverse_mapping(Mappings.presets)


@of("aihwkit.cloud.converter.v1.noise_model_info.NoiseModelInfo")
class NoiseModelInfo:
    PCM = 'pcm'
    GENERIC = 'generic'


value("aihwkit.cloud.converter.v1.rpu_config_info.RPU_CLASSES", {'InferenceRPUConfig': InferenceRPUConfig, 'WebComposerInferenceRPUConfig': WebComposerInferenceRPUConfig, 'OldWebComposerInferenceRPUConfig': OldWebComposerInferenceRPUConfig})

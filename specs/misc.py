"""Reference definitions of utilities (parsed, never run), confirmed by reading."""


@of("aihwkit.extension.functions.FloatPrecisionCastFunction")
class FloatPrecisionCastFunction:
    @staticmethod
    def forward(_: Any, input_: Tensor, exponent: int=8, mantissa: int=7, saturate_to_inf: bool=True):
        return ops.float_precision_cast(input_, exponent, mantissa, saturate_to_inf)

    @staticmethod
    def backward(ctx: Any, grad_in: Tensor):
        return (grad_in, None, None, None)



@of("aihwkit.extension.functions.FloatPrecisionCast")
class FloatPrecisionCast:
    def __init__(self, exponent: int=8, mantissa: int=7, saturate_to_inf: bool=True):
        super().__init__()
        self.exponent = exponent
        self.mantissa = mantissa
        self.saturate_to_inf = saturate_to_inf

    def forward(self, input_: Tensor):
        return FloatPrecisionCastFunction.apply(input_, self.exponent, self.mantissa, self.saturate_to_inf)



@of("aihwkit.linalg.matrix.AnalogMatrix")
class AnalogMatrix:
    def __init__(self, matrix: Union[Tensor, ndarray], rpu_config: RPUConfigBase, realistic: bool=False, **to_kwargs: Any):
        out_features, in_features = matrix.shape
        tile_module_class = rpu_config.get_default_tile_module_class(out_features, in_features)
        if isinstance(matrix, ndarray):
            matrix = from_numpy(matrix)
        self._tile = tile_module_class(out_features, in_features, rpu_config, False)
        self._tile = self._tile.to(**to_kwargs)
        self._tile.set_weights(matrix, realistic=realistic)
        self.realistic = realistic

    def cuda(self, *args: Any, **kwargs: Any):
        self._tile = self._tile.cuda(*args, **kwargs)
        return self

    def to(self, *args: Any, **kwargs: Any):
        self._tile = self._tile.to(*args, **kwargs)
        return self

    def __matmul__(self, matrix: Union[Tensor, ndarray]):
        output_numpy = False
        if isinstance(matrix, ndarray):
            output_numpy = True
            matrix = from_numpy(matrix).to(self._tile.device)
        with no_grad():
            output = self._tile.forward(matrix)
        if output_numpy:
            return output.cpu().numpy()
        return output

    def __rmatmul__(self, matrix: Union[Tensor, ndarray]):
        output_numpy = False
        if isinstance(matrix, ndarray):
            output_numpy = True
            matrix = from_numpy(matrix).to(self._tile.device)
        with no_grad():
            output = self._tile.backward(matrix)
        if output_numpy:
            return output.cpu().numpy()
        return output

    def _matmat(self, X: Union[Tensor, ndarray]):
        return self @ X

    def _matvec(self, x: Union[Tensor, ndarray]):
        return self @ x

    def _rmatvec(self, x: Union[Tensor, ndarray]):
        return x @ self

    def _rmatmat(self, X: Union[Tensor, ndarray]):
        return X @ self

    @property
    def shape(self):
        return (self._tile.out_size, self._tile.in_size)

    @property
    def dtype(self):
        return self._tile.rpu_config.get_data_type().as_torch()

    def ger(self, x_matrix: Union[Tensor, ndarray], d_matrix: Union[Tensor, ndarray], alpha: float=1.0):
        if isinstance(x_matrix, ndarray):
            x_matrix = from_numpy(x_matrix)
        if isinstance(d_matrix, ndarray):
            d_matrix = from_numpy(d_matrix)
        self._tile.set_learning_rate(alpha)
        self._tile.update(x_matrix, -d_matrix)



@of("aihwkit.utils.export._fusion_save_csv")
def _fusion_save_csv(file_name: str, conductance_data: OrderedDict, header: str):
    layer_names = list(conductance_data.keys())
    with open(file_name, 'w', newline='', encoding='utf-8') as file:
        file.write(header)
        csv_writer = writer(file, delimiter=',')
        csv_writer.writerow(layer_names)
        for layer_data in conductance_data.values():
            csv_writer.writerow(layer_data)


@of("aihwkit.utils.export._fusion_load_csv")
def _fusion_load_csv(file_name: str, header: str):
    conductance_data = ordered_dict()
    header_lines = header.split('\n')[:-1]
    with open(file_name, 'r', newline='', encoding='utf-8') as file:
        csv_reader = reader(file, delimiter=',')
        for header_line in header_lines:
            tmp = next(csv_reader)
            actual_header_line = ','.join(tmp)
            if actual_header_line != header_line:
                raise FusionExportError('Header line mismatch: ', header_line, actual_header_line)
        layer_names = next(csv_reader)
        for layer_name in layer_names:
            tmp = next(csv_reader)
            conductance_data[layer_name] = [float(x) for x in tmp]
    return conductance_data


@of("aihwkit.utils.export._fusion_get_csv_header")
def _fusion_get_csv_header(analog_model: Module):

    def add_to_header(current_header: str, field: str) -> str:
        current_header += ','.join([str(info[field]) for info in layer_infos.values()]) + '\n'
        return current_header
    layer_infos = ordered_dict()
    idx = 0
    for layer_name, module in analog_model.named_modules():
        if isinstance(module, (TileModuleBase, SimulatorTile, ModuleList)):
            continue
        if isinstance(module, AnalogLayerBase) and module.IS_CONTAINER:
            continue
        idx += 1
        if not isinstance(module, AnalogLayerBase):
            continue
        weights = module.get_weights()[0]
        layer_infos[layer_name] = {'num_weights': array(weights.size()).prod().item(), 'class': module.__class__.__name__, 'id': idx, 'height': weights.size()[0], 'width': array(weights.size())[1:].prod()}
    header = ''
    header = add_to_header(header, 'id')
    header = add_to_header(header, 'class')
    header = add_to_header(header, 'num_weights')
    header = add_to_header(header, 'height')
    header = add_to_header(header, 'width')
    return header


@of("aihwkit.utils.export.fusion_export")
def fusion_export(analog_model: Module, g_converter: Optional[BaseConductanceConverter]=None, file_name: Optional[str]=None):
    g_converter = deepcopy(g_converter) or FusionConductanceConverter()
    state_dict = analog_model.state_dict()
    conductance_data = ordered_dict()
    params = ordered_dict()
    for layer_name, module in analog_model.named_analog_layers():
        layer_data = []
        layer_params = []
        for analog_tile in module.analog_tiles():
            if not isinstance(analog_tile, InferenceTile):
                raise TileError('Expected an InferenceTile.')
            weights = analog_tile.get_weights(apply_weight_scaling=False, realistic=False)[0]
            target_conductances, analog_tile_params = g_converter.convert_to_conductances(weights)
            layer_params.append(analog_tile_params)
            for conductance_matrix in target_conductances:
                layer_data.extend(conductance_matrix.flatten().numpy().tolist())
        conductance_data[layer_name] = layer_data
        params[layer_name] = layer_params
    if file_name is not None:
        header = _fusion_get_csv_header(analog_model)
        _fusion_save_csv(file_name, conductance_data, header)
    return (conductance_data, params, state_dict)


@of("aihwkit.utils.export.fusion_import")
def fusion_import(conductance_data: Union[OrderedDict, str], analog_model: Module, params: Dict, state_dict: Optional[Dict]=None, g_converter: Optional[BaseConductanceConverter]=None):
    g_converter = deepcopy(g_converter) or FusionConductanceConverter()
    if state_dict is not None:
        analog_model.load_state_dict(state_dict)
    if isinstance(conductance_data, str):
        header = _fusion_get_csv_header(analog_model)
        conductance_data = _fusion_load_csv(conductance_data, header)
    analog_model.eval()
    for layer_name, module in analog_model.named_analog_layers():
        layer_data = conductance_data[layer_name]
        layer_params = params[layer_name]
        last_value = 0
        tile_id = 0
        programmed_conductances = []
        for analog_tile in module.analog_tiles():
            if not isinstance(analog_tile, InferenceTile):
                raise TileError('Expected an InferenceTile.')
            weight_shape = tensor([analog_tile.out_size, analog_tile.in_size])
            num_values = prod(weight_shape)
            g_mat = Tensor(layer_data[last_value:last_value + num_values]).reshape(weight_shape.tolist())
            last_value += num_values
            programmed_conductances.append(g_mat)
            noisy_weights = g_converter.convert_back_to_weights([programmed_conductances[tile_id]], layer_params[tile_id])
            analog_tile.set_weights(noisy_weights, analog_tile.get_weights()[1], apply_weight_scaling=False, realistic=False)
            tile_id += 1
    return analog_model


@of("aihwkit.utils.fitting._apply_parameters_to_config")
def _apply_parameters_to_config(device_config: Union[PulsedDevice, RPUConfigGeneric], params: Parameters):
    parvals = params.valuesdict()
    if isinstance(device_config, PulsedDevice):
        device = device_config
    else:
        device = getattr(device_config, 'device')
    for par, value in parvals.items():
        if not hasattr(device, par):
            raise ConfigError(f" Cannot find parameter '{par}' in device config.")
        setattr(device, par, value)


@of("aihwkit.utils.fitting.fit_measurements")
def fit_measurements(parameters: Union[Dict, Parameters], pulse_data: Union[Tuple[ndarray], ndarray], response_data: Union[Tuple[ndarray], ndarray], device_config: Union[PulsedDevice, RPUConfigGeneric], suppress_device_noise: bool=True, max_pulses: Optional[int]=1, n_traces: int=1, fit_weights: Optional[Union[Tuple[int], int]]=None, method: str='powell', verbose: bool=False, **fit_kwargs: Any):
    if isinstance(pulse_data, tuple) != isinstance(response_data, tuple):
        raise ArgumentError('Either all data inputs need to be tuples or None. ')
    device_config = deepcopy(device_config)
    if isinstance(device_config, PulsedDevice):
        rpu_config = SingleRPUConfig(device=device_config)
        if max_pulses is not None:
            rpu_config.update.desired_bl = max_pulses
            rpu_config.update.update_bl_management = False
            rpu_config.update.update_management = False
    else:
        rpu_config = device_config
    if suppress_device_noise:
        for field in fields(rpu_config.device):
            if field.name.endswith('dtod') or field.name.endswith('std'):
                setattr(rpu_config.device, field.name, 0.0)
    params = Parameters()
    if isinstance(parameters, Parameters):
        params = parameters
    elif isinstance(parameters, dict):
        for par, values in parameters.items():
            if isinstance(values, tuple):
                x_init, x_min, x_max = values
                params.add(par, value=x_init, min=x_min, max=x_max, vary=True)
            else:
                params.add(par, value=values, vary=False)
    else:
        raise ArgumentError('Expect dict or Parameters for parmeters.')
    args = (pulse_data, response_data, rpu_config, n_traces, fit_weights, verbose)
    result = minimize(model_response, params, args=args, method=method, **fit_kwargs)
    if verbose:
        report_fit(result)
    best_model_res = model_response(result.params, *args, only_response=True)
    _apply_parameters_to_config(device_config, result.params)
    return (result, device_config, best_model_res)


@of("aihwkit.utils.fitting.model_response")
def model_response(params: Parameters, pulse_data: Union[Tuple[ndarray], ndarray], response_data: Union[Tuple[ndarray], ndarray], rpu_config: RPUConfigGeneric, n_traces: int=1, fit_weights: Optional[Union[Tuple[int], int]]=None, verbose: bool=True, only_response: bool=False):
    _apply_parameters_to_config(rpu_config, params)
    no_list = False
    if not isinstance(pulse_data, tuple):
        pulse_data = (pulse_data,)
        response_data = (response_data,)
        if fit_weights is not None:
            fit_weights = (fit_weights,)
        no_list = True
    numpy_pulses = array(pulse_data[0])
    n_devices = 1
    if numpy_pulses.ndim > 1:
        n_devices = numpy_pulses.shape[1]
    analog_tile = AnalogTile(n_traces, n_devices, rpu_config)
    analog_tile.set_learning_rate(1)
    deviation = array([], 'float')
    model_responses = []
    for idx, (numpy_pulses, response) in enumerate(zip(pulse_data, response_data)):
        if numpy_pulses.ndim == 1:
            numpy_pulses = numpy_pulses.reshape(-1, 1)
        if response.ndim == 1:
            response = response.reshape(-1, 1)
        w_init = response[0, :]
        weights = from_numpy(array(w_init).flatten()[newaxis, :]).to(dtype=float32) * ones((n_traces, n_devices), dtype=float32)
        analog_tile.set_weights(weights)
        pulses = from_numpy(numpy_pulses).to(dtype=float32)
        w_trace = [weights]
        for pulse in pulses[:-1]:
            analog_tile.update(pulse * ones(n_devices, dtype=float32), -ones(n_traces, dtype=float32))
            w_trace.append(analog_tile.tile.get_weights())
        stacked_w_trace = stack(w_trace).cpu().numpy()
        num_samples = response.shape[0]
        avg_w_trace = stacked_w_trace.mean(axis=1)[:num_samples, :]
        model_responses.append(avg_w_trace)
        dev = avg_w_trace - response
        if fit_weights is not None:
            dev = dev * array(fit_weights[idx])[:dev.shape[1]]
        deviation = concatenate([deviation, dev.flatten()])
    if only_response:
        if no_list:
            return model_responses[0]
        return model_responses
    if verbose:
        print(deviation.std())
    return deviation


@of("aihwkit.utils.legacy.convert_legacy_checkpoint")
def convert_legacy_checkpoint(legacy_chkpt: 'OrderedDict', model: Optional[Module]=None):

    def check_conv_mapped(prefix1: str) -> bool:
        mod_name = prefix1[:-1]
        if mod_name in layer_dic:
            if 'Conv' in layer_dic[mod_name] and 'Mapped' in layer_dic[mod_name]:
                return True
        return False

    def get_key_from_ending(key_name: str, par_name: str, prefix: str) -> str:
        ending = key_name.split(par_name)[-1]
        arr = [int(val) for val in ending.split('_') if len(val) > 0]
        if len(arr) == 1 and arr[0] == 0:
            new_key = 'analog_module.' + par_name
        elif len(arr) == 1 and arr[0] != 0:
            new_key = 'analog_module.' + par_name + '.' + str(arr)
        elif len(arr) > 1:
            new_key = 'analog_module.array'
            if check_conv_mapped(prefix):
                new_key = 'array'
            for val in arr:
                new_key += '.' + str(val)
            new_key += '.' + par_name
        else:
            new_key = 'analog_module.' + par_name + ending
        return new_key
    has_mapped = False
    layer_dic = {}
    if model is not None:
        for name, analog_layer in model.named_analog_layers():
            has_mapped = has_mapped or 'Mapped' in analog_layer.__class__.__name__
            layer_dic[name] = analog_layer.__class__.__name__
    legacy_chkpt = deepcopy(legacy_chkpt)
    for key, value in legacy_chkpt.items():
        if key.split('.')[-1] == 'analog_tile_state':
            rpu_config = deepcopy(value['rpu_config'])
            return (legacy_chkpt, rpu_config)
    if model is not None and (not has_mapped):
        for tile in model.analog_tiles():
            tile.rpu_config.mapping.max_input_size = 0
            tile.rpu_config.mapping.max_output_size = 0
    for key, value in legacy_chkpt.items():
        if 'analog_tile_state' in key:
            rpu_config = value['rpu_config']
            if not isinstance(rpu_config, InferenceRPUConfig):
                continue
            if not hasattr(rpu_config, 'mapping'):
                rpu_config.mapping = OldWebComposerMappingParameter()
            if 'weight_scaling_omega_columnwise' in rpu_config.mapping.__dict__:
                rpu_config.mapping.weight_scaling_columnwise = rpu_config.mapping.__dict__.pop('weight_scaling_omega_columnwise')
            if 'learn_out_scaling_alpha' in rpu_config.mapping.__dict__:
                rpu_config.mapping.learn_out_scaling = rpu_config.mapping.__dict__.pop('learn_out_scaling_alpha')
                rpu_config.mapping.out_scaling_columnwise = rpu_config.mapping.weight_scaling_columnwise
            if not has_mapped:
                rpu_config.mapping.max_input_size = 0
                rpu_config.mapping.max_output_size = 0
            if isinstance(rpu_config.noise_model, PCMLikeNoiseModel) and (not hasattr(rpu_config.noise_model, 'prog_coeff_g_max_reference')):
                rpu_config.noise_model.prog_coeff_g_max_reference = rpu_config.noise_model.g_max
            if not hasattr(rpu_config, 'pre_post'):
                rpu_config.pre_post = PrePostProcessingParameter()
            if not hasattr(rpu_config, 'remap'):
                rpu_config.remap = WeightRemapParameter()
            if not hasattr(rpu_config.modifier, 'coeffs'):
                dic = rpu_config.modifier.__dict__
                rpu_config.modifier.coeffs = [dic.pop('coeff0'), dic.pop('coeff1'), dic.pop('coeff2')]
    chkpt = OrderedDict()
    for key, value in legacy_chkpt.items():
        name = key.split('.')[-1]
        prefix = key.split(name)[0]
        if 'bias' == name:
            if len([k for k in legacy_chkpt if k.startswith(prefix + 'analog_tile_state')]) > 0:
                if check_conv_mapped(prefix):
                    new_key = prefix + name
                else:
                    new_key = prefix + 'analog_module.' + name
                chkpt[new_key] = value
                continue
        if name.startswith('analog_tile_state'):
            new_key = prefix + get_key_from_ending(name, 'analog_tile_state', prefix)
            state = value
            for legacy_key in ['noise_model', 'drift_compensation', 'drift_baseline', 'drift_readout_tensor', 'reference_combined_weights', 'programmed_weights', 'nu_drift_list', 'shared_weights', 'image_sizes']:
                state.pop(legacy_key, None)
            state['use_bias'] = state.pop('bias', False)
            alpha = state.get('alpha', None)
            if isinstance(alpha, Tensor):
                p_key = new_key.replace('analog_tile_state', 'alpha')
                chkpt[p_key] = alpha
            out_size = state['out_size']
            rpu_config = state['rpu_config']
            device = state['analog_ctx'].device
            p_key = new_key.replace('analog_tile_state', 'mapping_scales')
            chkpt[p_key] = ones((out_size,), dtype=float32, device=device)
            if 'mapping_scales' in state:
                chkpt[p_key] *= state.pop('mapping_scales', 1.0)
            chkpt[p_key] *= state.pop('analog_alpha_scale', 1.0)
            chkpt[new_key] = state
            continue
        if name.startswith('analog_out_scaling_alpha'):
            new_name = name.split('analog_')[-1] + '_0'
            new_key = prefix + get_key_from_ending(new_name, 'out_scaling_alpha', prefix)
            chkpt[new_key] = value
            continue
        if name.startswith('analog_shared_weights'):
            continue
        if name.startswith('analog_ctx'):
            new_key = prefix + get_key_from_ending(name, 'analog_ctx', prefix)
            chkpt[new_key] = value
            continue
        chkpt[key] = value
    return (chkpt, rpu_config)


@of("aihwkit.utils.visualization.compute_pulse_response")
def compute_pulse_response(analog_tile: TileModule, direction: ndarray, use_forward: bool=False):
    out_size = analog_tile.out_size
    in_size = analog_tile.in_size
    if analog_tile.is_cuda:
        device = torch_device('cuda')
    else:
        device = torch_device('cpu')
    total_iters = len(direction)
    w_trace = np.zeros((total_iters, out_size, in_size))
    in_vector = -ones(1, in_size, device=device)
    out_vector = ones(1, out_size, device=device)
    in_eye = eye(in_size, device=device)
    dir_tensor = from_numpy(direction).float().to(device)
    for i in range(total_iters):
        analog_tile.update(in_vector, out_vector * dir_tensor[i])
        if use_forward:
            w_trace[i, :, :] = analog_tile(in_eye).detach().cpu().numpy().T
        else:
            w_trace[i, :, :] = analog_tile.get_weights()[0].detach().cpu().numpy()
    return w_trace


@of("aihwkit.utils.visualization.compute_pulse_statistics")
def compute_pulse_statistics(w_nodes: ndarray, w_trace: ndarray, direction: ndarray, up_direction: bool, smoothness: float=0.5):

    def calc_mean_and_std(node: ndarray, w_values: ndarray, delta_w: ndarray, lam: float) -> Tuple[ndarray, ndarray]:
        alpha = np.exp(-0.5 * (node - w_values) ** 2 / lam ** 2)
        beta = alpha.sum(axis=0)
        alpha[:, beta < 0.1] = np.nan
        alpha /= np.expand_dims(beta, axis=0)
        mean = np.sum(alpha * delta_w, axis=0)
        std = np.sqrt(np.sum(alpha * (delta_w - np.expand_dims(mean, axis=0)) ** 2, axis=0))
        return (mean, std)
    delta_w = np.diff(w_trace, axis=0)
    w_trace_s = w_trace[:-1, :, :]
    if up_direction:
        msk = np.logical_and(direction[:-1] > 0, np.diff(direction) == 0)
        w_values = w_trace_s[msk, :, :]
        delta_w_values = delta_w[msk, :, :]
    else:
        msk = np.logical_and(direction[:-1] < 0, np.diff(direction) == 0)
        w_values = w_trace_s[msk, :, :]
        delta_w_values = delta_w[msk, :, :]
    dw_mean = np.zeros((len(w_nodes), w_trace.shape[1], w_trace.shape[2]))
    dw_std = np.zeros((len(w_nodes), w_trace.shape[1], w_trace.shape[2]))
    lam = (w_nodes[1] - w_nodes[0]) / 2 * smoothness
    for i, node in enumerate(w_nodes):
        dw_mean[i, :, :], dw_std[i, :, :] = calc_mean_and_std(node, w_values, delta_w_values, lam)
    return (dw_mean, dw_std)


@of("aihwkit.utils.visualization.get_tile_for_plotting")
def get_tile_for_plotting(rpu_config: Union[SingleRPUConfig, UnitCellRPUConfig], n_traces: int, use_cuda: bool=False, noise_free: bool=False, w_init: Optional[float]=None):

    def set_noise_free(dev: Any) -> Any:
        if hasattr(dev, 'dw_min_std'):
            dev.dw_min_std = 0.0
        if hasattr(dev, 'refresh_forward'):
            setattr(dev, 'refresh_forward', IOParameters(is_perfect=True))
        if hasattr(dev, 'refresh_update'):
            setattr(dev, 'refresh_update', UpdateParameters(pulse_type=PulseType.NONE))
        if hasattr(dev, 'transfer_forward'):
            setattr(dev, 'transfer_forward', IOParameters(is_perfect=True))
        if hasattr(dev, 'transfer_update'):
            setattr(dev, 'transfer_update', UpdateParameters(pulse_type=PulseType.NONE))
        if hasattr(dev, 'write_noise_std') and getattr(dev, 'write_noise_std') > 0.0:
            setattr(dev, 'write_noise_std', 1e-06)
    config = deepcopy(rpu_config)
    config.update.update_bl_management = False
    config.update.update_management = False
    config.update.desired_bl = 1
    if noise_free:
        config.forward.is_perfect = True
        set_noise_free(config.device)
        if hasattr(config.device, 'unit_cell_devices'):
            for dev in getattr(config.device, 'unit_cell_devices'):
                set_noise_free(dev)
        if hasattr(config.device, 'device'):
            set_noise_free(getattr(config.device, 'device'))
    analog_tile = AnalogTile(n_traces, 1, config)
    analog_tile.set_learning_rate(1)
    if w_init is None:
        w_init = getattr(config.device.as_bindings(analog_tile.get_data_type()), 'w_min', -1.0)
    weights = w_init * ones((n_traces, 1))
    analog_tile.set_weights(weights)
    if use_cuda and cuda.is_compiled():
        return analog_tile.cuda()
    return analog_tile


@of("aihwkit.utils.visualization.estimate_n_steps")
def estimate_n_steps(rpu_config: Union[SingleRPUConfig, UnitCellRPUConfig]):
    if not isinstance(rpu_config, SingleRPUConfig):
        return 1000
    device_binding = rpu_config.device.as_bindings(rpu_config.runtime.data_type)
    if not hasattr(device_binding, 'w_min'):
        raise ConfigError('n_step estimation only for PulsedDevice. ' + 'Provide n_step explicitly.')
    weight_granularity = device_binding.calc_weight_granularity()
    w_min = device_binding.w_min
    w_max = device_binding.w_max
    n_steps = int(np.round((w_max - w_min) / weight_granularity))
    return n_steps

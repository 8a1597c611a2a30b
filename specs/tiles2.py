"""Reference definitions of the simulator tiles written in Python, of the tile arrays and of the concrete tiles (parsed, never run)."""


@of("aihwkit.simulator.tiles.torch_tile.TorchSimulatorTile")
class TorchSimulatorTile:
    def __init__(self, x_size: int, d_size: int, rpu_config: 'TorchInferenceRPUConfig', bias: bool=False, analog_mvm: Type[AnalogMVM]=AnalogMVM):
        Module.__init__(self)
        self.x_size = x_size
        self.d_size = d_size
        if bias:
            raise AnalogBiasConfigError('Analog bias is not supported for TorchSimulatorTile')
        self.check_rpu_config_support(rpu_config)
        analog_mvm.check_support(rpu_config.forward)
        self._analog_mvm = analog_mvm
        self._f_io = rpu_config.forward
        self._modifier = rpu_config.modifier
        dtype = rpu_config.runtime.data_type.as_torch()
        if self._f_io.out_noise_std > 0:
            out_noise_values = (self._f_io.out_noise * (1.0 + randn((d_size,), dtype=dtype))).abs()
            self.register_buffer('out_noise_values', out_noise_values)
        else:
            self.out_noise_values = None
        self.weight = Parameter(zeros(self.d_size, self.x_size, dtype=dtype))

    def set_weights(self, weight: Tensor):
        self.weight.data.copy_(weight)

    def get_weights(self, as_ref: bool=False):
        if as_ref:
            return self.weight.data
        return self.weight.data.detach().cpu().clone()

    def get_x_size(self):
        return self.x_size

    def get_d_size(self):
        return self.d_size

    def remap_weights(self, remap: WeightRemapParameter, scales: Tensor):
        scaled_weights = self.weight * scales.view(-1, 1)
        if remap.type == WeightRemapType.LAYERWISE_SYMMETRIC:
            new_scale = scaled_weights.abs().max()
            if new_scale == 0.0:
                return scales
            self.weight.data.copy_(scaled_weights / new_scale)
            return new_scale.view(-1)
        if remap.type == WeightRemapType.CHANNELWISE_SYMMETRIC:
            new_scale, _ = scaled_weights.abs().max(1)
            new_scale = where(new_scale > 0.0, new_scale, scales.view(-1))
            self.weight.data.copy_(scaled_weights / new_scale.view(-1, 1))
            return new_scale
        raise TorchTileConfigError(f'Unknown weight remap type {remap.type}')

    def clip_weights(self, clip: WeightClipParameter):
        if clip.type == WeightClipType.FIXED_VALUE:
            self.weight.data.copy_(clamp(self.weight, -clip.fixed_value, clip.fixed_value))
        elif clip.type == WeightClipType.LAYER_GAUSSIAN:
            alpha = self.weight.std() * clip.sigma
            if clip.fixed_value > 0:
                alpha = min(clip.fixed_value, alpha)
            self.weight.data.copy_(clamp(self.weight, -alpha, alpha))
        elif clip.type == WeightClipType.AVERAGE_CHANNEL_MAX:
            raise NotImplementedError
        else:
            raise TorchTileConfigError(f'Unknown clip type {clip.type}')

    def set_config(self, rpu_config: 'TorchInferenceRPUConfig'):
        self._f_io = rpu_config.forward
        self._modifier = rpu_config.modifier

    def register_weight_hook(self, hook: Callable):
        return self.weight.register_hook(hook)

    def forward(self, x_input: Tensor, bias: bool=False, in_trans: bool=False, out_trans: bool=False, is_test: bool=False, non_blocking: bool=False):
        if in_trans or out_trans:
            raise TorchTileConfigError('Non-trans MVMs supported only.')
        if not is_test:
            noisy_weights = TorchSimulatorTile.modify_weight(self.weight, self._modifier, x_input.shape[0])
        else:
            noisy_weights = self.weight
        return self._analog_mvm.matmul(noisy_weights, x_input, self._f_io, False, is_test=is_test, out_noise_values=self.out_noise_values)

    @staticmethod
    def modify_weight(inp_weight: Tensor, modifier: WeightModifierParameter, batch_size: int):
        per_batch_sample = modifier.per_batch_sample
        target_shape = (batch_size,) + inp_weight.shape if per_batch_sample else inp_weight.shape
        if modifier.type in [WeightModifierType.NONE, WeightModifierType.COPY]:
            return inp_weight
        if modifier.type == WeightModifierType.MULT_NORMAL:
            with no_grad():
                gauss = randn(size=target_shape, device=inp_weight.device, dtype=inp_weight.dtype)
                noise = inp_weight * modifier.std_dev * gauss
            out_weight = inp_weight.clone() + noise
            return out_weight
        assumed_wmax = modifier.assumed_wmax
        if modifier.rel_to_actual_wmax:
            assumed_wmax = inp_weight.abs().max()
        if modifier.type == WeightModifierType.DISCRETIZE:
            out_weight = inp_weight.clone().expand(target_shape)
            out_weight = UniformQuantize.apply(out_weight, modifier.res, assumed_wmax, modifier.sto_round)
        elif modifier.type == WeightModifierType.ADD_NORMAL:
            with no_grad():
                noise = modifier.std_dev * assumed_wmax * randn(target_shape, device=inp_weight.device, dtype=inp_weight.dtype)
            out_weight = inp_weight.clone() + noise
        else:
            raise TorchTileConfigError(f'Weight modifier {modifier} not supported')
        return out_weight

    @classmethod
    def check_rpu_config_support(cls, rpu_config: 'TorchInferenceRPUConfig'):
        if rpu_config.clip.type == WeightClipType.AVERAGE_CHANNEL_MAX:
            raise TorchTileConfigError('Clip type AVERAGE_CHANNEL_MAX not supported by torch tile')
        if rpu_config.modifier.enable_during_test:
            raise TorchTileConfigError('Modifier noise is currently always off in the torch tile')
        if rpu_config.modifier.copy_last_column:
            raise TorchTileConfigError('Bias is assumed to be in digital only for torch tile')
        if rpu_config.modifier.type in [WeightModifierType.DOREFA, WeightModifierType.POLY, WeightModifierType.PROG_NOISE, WeightModifierType.PCM_NOISE, WeightModifierType.DISCRETIZE_ADD_NORMAL]:
            raise TorchTileConfigError('The given modifier noise type is not supported in the torch tile')
        if rpu_config.modifier.pdrop > 0.0:
            raise TorchTileConfigError('The drop-connect is not supported in the torch tile')
        if rpu_config.remap.type not in [WeightRemapType.LAYERWISE_SYMMETRIC, WeightRemapType.CHANNELWISE_SYMMETRIC, WeightRemapType.NONE]:
            raise TorchTileConfigError('Remapping type not supported.')
        if rpu_config.remap.remapped_wmax != 1.0:
            raise TorchTileConfigError('Remapping to value different from 1.0 not supported.')
        if rpu_config.remap.max_scale_range != 0.0:
            raise TorchTileConfigError('Remap parameter max_scale_range must be 0.0.')
        if rpu_config.remap.max_scale_ref != 0.0:
            raise TorchTileConfigError('Remap parameter max_scale_ref must be 0.0.')



@of("aihwkit.simulator.tiles.custom.CustomSimulatorTile")
class CustomSimulatorTile:
    def __init__(self, x_size: int, d_size: int, rpu_config: 'CustomRPUConfig', bias: bool=False):
        Module.__init__(self)
        self.x_size = x_size
        self.d_size = d_size
        self.learning_rate = 0.1
        if bias:
            raise AnalogBiasConfigError('Analog bias is not supported for TorchSimulatorTile')
        AnalogMVM.check_support(rpu_config.forward)
        AnalogMVM.check_support(rpu_config.backward)
        self.set_config(rpu_config)
        self._analog_weight: Tensor
        self.register_buffer('_analog_weight', zeros(self.d_size, self.x_size, dtype=float32))

    def forward(self, x_input: Tensor, bias: bool=False, in_trans: bool=False, out_trans: bool=False, is_test: bool=False, non_blocking: bool=False):
        if bias or in_trans or out_trans or non_blocking:
            raise TileError('transposed inputs or analog bias not supported')
        return AnalogMVM.matmul(self._analog_weight, x_input, self._fwd_io, False)

    def backward(self, d_input: Tensor, bias: bool=False, in_trans: bool=False, out_trans: bool=False, non_blocking: bool=False):
        if bias or in_trans or out_trans or non_blocking:
            raise TileError('transposed inputs or analog bias not supported')
        return AnalogMVM.matmul(self._analog_weight, d_input, self._bwd_io, True)

    def update(self, x_input: Tensor, d_input: Tensor, bias: bool=False, in_trans: bool=False, out_trans: bool=False, non_blocking: bool=False):
        if bias or in_trans or out_trans or non_blocking:
            raise TileError('transposed inputs or analog bias not supported')
        delta_w = d_input.view(-1, d_input.size(-1)).T @ x_input.view(-1, x_input.size(-1))
        if self._update.gradient_noise:
            delta_w += self._update.gradient_noise * randn_like(delta_w)
        self._analog_weight -= self.learning_rate * delta_w

    def set_config(self, rpu_config: 'CustomRPUConfig'):
        self._fwd_io = rpu_config.forward
        self._bwd_io = rpu_config.backward
        self._update = rpu_config.update

    def set_weights(self, weight: Tensor):
        self._analog_weight.copy_(weight)

    def get_weights(self, as_ref: bool=False):
        if as_ref:
            return self._analog_weight.data
        return self._analog_weight.data.detach().cpu().clone()

    def get_x_size(self):
        return self.x_size

    def get_d_size(self):
        return self.d_size

    def get_learning_rate(self):
        return self.learning_rate

    def set_learning_rate(self, learning_rate: Optional[float]):
        if learning_rate is not None:
            self.learning_rate = learning_rate

    def set_weights_uniform_random(self, bmin: float, bmax: float):
        if bmin >= bmax:
            raise TileError('Bmin should be smaller than bmax')
        self.set_weights(rand_like(self.get_weights()) * (bmax - bmin) + bmin)

    def get_meta_parameters(self):
        raise NotImplementedError



@of("aihwkit.simulator.tiles.custom.CustomTile")
class CustomTile:
    supports_indexed = False

    def __init__(self, out_size: int, in_size: int, rpu_config: Optional['CustomRPUConfig']=None, bias: bool=False, in_trans: bool=False, out_trans: bool=False):
        if in_trans or out_trans:
            raise TileError('in/out trans is not supported.')
        if not rpu_config:
            rpu_config = CustomRPUConfig()
        TileModule.__init__(self)
        SimulatorTileWrapper.__init__(self, out_size, in_size, rpu_config, bias, in_trans, out_trans, torch_update=True)
        TileWithPeriphery.__init__(self)
        if self.analog_bias:
            raise AnalogBiasConfigError('Analog bias is not supported for the torch tile')

    def _create_simulator_tile(self, x_size: int, d_size: int, rpu_config: 'CustomRPUConfig'):
        return rpu_config.simulator_tile_class(x_size=x_size, d_size=d_size, rpu_config=rpu_config)

    def forward(self, x_input: Tensor, tensor_view: Optional[Tuple]=None):
        self.tile.set_config(self.rpu_config)
        out = AnalogFunction.apply(self.get_analog_ctx(), self, x_input, self.shared_weights, not self.training)
        if tensor_view is None:
            tensor_view = self.get_tensor_view(out.dim())
        out = self.apply_out_scaling(out, tensor_view)
        if self.digital_bias:
            return out + self.bias.view(*tensor_view)
        return out

    def post_update_step(self):
        pass



@of("aihwkit.simulator.tiles.transfer.TransferSimulatorTile")
class TransferSimulatorTile:
    def __init__(self, x_size: int, d_size: int, rpu_config: 'UnitCellRPUConfig', dtype: RPUDataType):
        Module.__init__(self)
        self.x_size = x_size
        self.d_size = d_size
        self.update_counter = 0
        self.chop_counter = 0
        self.transfer_idx = 0
        self.learning_rate = 0.1
        self.m_x = 0.0
        self.m_d = 0.0
        self._transfer_vec = None
        if not isinstance(rpu_config.device, ChoppedTransferCompound):
            raise ConfigError('Device chould be of type ChoppedTransferCompound')
        self.device_config = rpu_config.device
        cfg = self.device_config
        rpu_config_0 = SingleRPUConfig(device=deepcopy(cfg.unit_cell_devices[0]), forward=deepcopy(cfg.transfer_forward), backward=deepcopy(cfg.transfer_forward), update=deepcopy(rpu_config.update), tile_class=AnalogTileWithoutPeriphery)
        rpu_config_1 = SingleRPUConfig(device=deepcopy(cfg.unit_cell_devices[1]), forward=deepcopy(rpu_config.forward), backward=deepcopy(rpu_config.backward), update=deepcopy(cfg.transfer_update), tile_class=AnalogTileWithoutPeriphery)
        self.grad_tile = rpu_config_0.tile_class(d_size, x_size, rpu_config_0)
        self.weight_tile = rpu_config_1.tile_class(d_size, x_size, rpu_config_1)
        self.from_weight_granularity = rpu_config_0.device.as_bindings(dtype).calc_weight_granularity()
        self.to_weight_granularity = rpu_config_1.device.as_bindings(dtype).calc_weight_granularity()
        lr_w = self.device_config.step * self.to_weight_granularity
        self.weight_tile.set_learning_rate(lr_w)
        transfer_columns = self.device_config.transfer_columns
        self.t_in_size = self.x_size if transfer_columns else self.d_size
        self.t_out_size = self.d_size if transfer_columns else self.x_size
        hidden_weight = zeros([self.t_in_size, self.t_out_size], dtype=dtype.as_torch())
        self.register_buffer('hidden_weight', hidden_weight)
        if isinstance(cfg, DynamicTransferCompound):
            past_mean_weight = zeros([self.t_in_size, self.t_out_size], dtype=dtype.as_torch())
            self.register_buffer('past_mean_weight', past_mean_weight)
            reference_weight = zeros([self.t_in_size, self.t_out_size], dtype=dtype.as_torch())
            self.register_buffer('reference_weight', reference_weight)
        chopper = ones([self.t_in_size], dtype=dtype.as_torch())
        self.register_buffer('chopper', chopper)
        granularity = rpu_config.update.desired_bl * self.from_weight_granularity
        self.lr_a_auto_scale = cfg.fast_lr * granularity

    def forward(self, x_input: Tensor, bias: bool=False, in_trans: bool=False, out_trans: bool=False, is_test: bool=False, non_blocking: bool=False):
        return self.weight_tile.tile.forward(x_input, bias, in_trans, out_trans, is_test, non_blocking)

    def backward(self, d_input: Tensor, bias: bool=False, in_trans: bool=False, out_trans: bool=False, non_blocking: bool=False):
        return self.weight_tile.tile.backward(d_input, bias, in_trans, out_trans, non_blocking)

    def update(self, x_input: Tensor, d_input: Tensor, bias: bool=False, in_trans: bool=False, out_trans: bool=False, non_blocking: bool=False):
        cfg = self.device_config
        if in_trans or out_trans or bias:
            raise ConfigError('Trans or bias not supported ')
        if not cfg.n_reads_per_transfer == 1:
            raise ConfigError('Only 1 read per transfer supported')
        if cfg.transfer_every < 0:
            raise ConfigError('Auto transfer every not supported')
        m_batch = 1
        if x_input.dim() > 1:
            m_batch = x_input.size(int(in_trans))
        transfer_every = cfg.transfer_every
        if cfg.units_in_mbatch:
            transfer_every = m_batch * transfer_every
        transfer_every = int(ceil(transfer_every))
        if isinstance(cfg, DynamicTransferCompound) and cfg.experimental_correct_accumulation:
            raise ConfigError('Correct accumulation is not supported')
        if cfg.auto_scale:
            lr_a = self.lr_a_auto_scale
            tau = (1.0 - cfg.auto_momentum) / m_batch
            m_x = x_input.abs().max().item()
            m_d = d_input.abs().max().item()
            self.m_x = (1 - tau) * self.m_x + tau * m_x
            self.m_d = (1 - tau) * self.m_d + tau * m_d
            if self.m_x > 0.0 and self.m_d > 0.0:
                lr_a /= self.m_x * self.m_d
        else:
            lr_a = cfg.fast_lr
        self.grad_tile.set_learning_rate(lr_a)
        if self.chopper is not None:
            if cfg.transfer_columns:
                x_input = x_input * self.chopper
            else:
                d_input = d_input * self.chopper
        self.grad_tile.tile.update(x_input, d_input, bias, in_trans, out_trans, non_blocking)
        self.update_counter += m_batch
        rest_count = (self.update_counter - m_batch) % transfer_every + m_batch
        if rest_count >= transfer_every:
            if rest_count >= 2 * transfer_every:
                raise ConfigError('Multiple transfers within batch not supported for the python transfer implementation.')
            buffer_granularity = cfg.buffer_granularity if cfg.buffer_granularity > 0.0 else 1.0
            if cfg.auto_granularity > 0.0:
                period = self.t_in_size * transfer_every
                buffer_granularity *= self.from_weight_granularity * cfg.auto_granularity / period
            else:
                buffer_granularity *= self.from_weight_granularity
            if cfg.correct_gradient_magnitudes:
                buffer_granularity *= self.to_weight_granularity / self.from_weight_granularity
                lr_h = self.learning_rate / lr_a / buffer_granularity
            else:
                lr_h = self.learning_rate / buffer_granularity
            chop_period = int(round(1.0 / cfg.in_chop_prob)) if cfg.in_chop_prob > 0 else 1
            if self._transfer_vec is None:
                self._transfer_vec = eye(self.t_in_size, dtype=x_input.dtype, device=x_input.device)
            self.transfer_idx = (self.transfer_idx + 1) % self.t_in_size
            k = self.transfer_idx
            if cfg.transfer_columns:
                omega = self.grad_tile.tile.forward(self._transfer_vec[k], False, in_trans, out_trans, False, non_blocking)
            else:
                omega = self.grad_tile.tile.backward(self._transfer_vec[k], False, in_trans, out_trans, non_blocking)
            if isinstance(cfg, DynamicTransferCompound):
                beta = min(cfg.tail_weightening / chop_period, 1)
                self.hidden_weight[k] += lr_h * self.chopper[k] * (omega - self.reference_weight[k])
                self.past_mean_weight[k] = (1 - beta) * self.past_mean_weight[k] + beta * omega
            else:
                self.hidden_weight[k] += lr_h * self.chopper[k] * omega
            write_values = -trunc(self.hidden_weight[k])
            if cfg.forget_buffer:
                self.hidden_weight[k][write_values != 0] = cfg.momentum
            else:
                self.hidden_weight[k] += write_values * (1 - cfg.momentum)
            switch_chopper = False
            if cfg.in_chop_prob:
                if cfg.in_chop_random:
                    switch_chopper = rand(1).item() < cfg.in_chop_prob
                else:
                    if k == 0:
                        self.chop_counter = (self.chop_counter + 1) % chop_period
                    switch_chopper = self.chop_counter == 0
            if switch_chopper:
                self.chopper[k] = -self.chopper[k]
            if not write_values.abs().sum() == 0.0:
                if cfg.transfer_columns:
                    self.weight_tile.tile.update(self._transfer_vec[k], write_values, False, in_trans, out_trans, non_blocking)
                else:
                    self.weight_tile.tile.update(write_values, self._transfer_vec[k], False, in_trans, out_trans, non_blocking)
            if isinstance(cfg, DynamicTransferCompound) and switch_chopper:
                self.reference_weight[k] = self.past_mean_weight[k]

    def get_weights(self, as_ref: bool=False):
        if as_ref:
            return self.weight_tile._get_tile_weights_ref()
        return self.weight_tile.tile.get_weights()

    def set_weights(self, weight: Tensor):
        self.weight_tile.tile.set_weights(weight)

    def get_x_size(self):
        return self.weight_tile.tile.get_x_size()

    def get_d_size(self):
        return self.weight_tile.tile.get_d_size()

    def get_hidden_parameters(self):
        values_0 = self.grad_tile.tile.get_hidden_parameters()
        values_1 = self.weight_tile.tile.get_hidden_parameters()
        lst = [values_0, values_1, self.grad_tile.tile.get_weights()[None, :, :], self.weight_tile.tile.get_weights()[None, :, :]]
        for name, buffer in self.named_buffers():
            if 'weight' in name:
                buf = buffer.clone().cpu()
                if self.device_config.transfer_columns:
                    buf = buf.T
                lst.append(buf[None, :, :])
        return concatenate(lst, axis=0)

    def get_hidden_parameter_names(self):
        names = self.grad_tile.tile.get_hidden_parameter_names()
        names_0 = [n + '_0' for n in names]
        names = self.weight_tile.tile.get_hidden_parameter_names()
        names_1 = [n + '_1' for n in names]
        lst = names_0 + names_1 + ['fast_weight', 'slow_weight']
        for name, _ in self.named_buffers():
            if 'weight' in name:
                lst.append(name)
        return lst

    def set_hidden_parameters(self, params: Tensor):
        names = self.get_hidden_parameter_names()
        n_base_params_0 = len(self.grad_tile.tile.get_hidden_parameter_names())
        n_base_params_1 = len(self.weight_tile.tile.get_hidden_parameter_names())
        values_0 = params[:n_base_params_0, :, :]
        values_1 = params[n_base_params_0:n_base_params_0 + n_base_params_1, :, :]
        self.grad_tile.tile.set_hidden_parameters(values_0)
        self.weight_tile.tile.set_hidden_parameters(values_1)
        self.grad_tile.tile.set_weights(params[names.index('fast_weight')])
        self.weight_tile.tile.set_weights(params[names.index('slow_weight')])
        for name, buffer in self.named_buffers():
            if name in names:
                weight = params[names.index(name), :, :]
                if self.device_config.transfer_columns:
                    weight = weight.T
                buffer.data = weight.clone()

    def get_learning_rate(self):
        return self.learning_rate

    def set_learning_rate(self, learning_rate: Optional[float]):
        if learning_rate is None:
            return
        self.learning_rate = learning_rate

    def post_update_step(self):
        self.grad_tile.post_update_step()
        self.weight_tile.post_update_step()

    def dump_extra(self):
        return {'weight_tile': self.weight_tile.tile.dump_extra(), 'grad_tile': self.grad_tile.tile.dump_extra()}

    def load_extra(self, extra: Dict, strict: bool=False):
        if 'grad_tile' not in extra or 'weight_tile' not in extra:
            raise RuntimeError('Wrong keys')
        self.weight_tile.load_extra(extra['weight_tile'], strict)
        self.grad_tile.load_extra(extra['grad_tile'], strict)

    def set_weights_uniform_random(self, bmin: float, bmax: float):
        self.weight_tile.tile.set_weights_uniform_random(bmin, bmax)

    def get_meta_parameters(self):
        return self.weight_tile.tile.get_meta_parameters()



@of("aihwkit.simulator.tiles.transfer.TorchTransferTile")
class TorchTransferTile:
    supports_indexed = False

    def __init__(self, out_size: int, in_size: int, rpu_config: RPUConfigGeneric, bias: bool=False, in_trans: bool=False, out_trans: bool=False):
        TileModule.__init__(self)
        SimulatorTileWrapper.__init__(self, out_size, in_size, rpu_config, bias, in_trans, out_trans, ignore_analog_state=True)
        TileWithPeriphery.__init__(self)

    def _create_simulator_tile(self, x_size: int, d_size: int, rpu_config: RPUConfigGeneric):
        if not isinstance(rpu_config, UnitCellRPUConfig):
            raise ConfigError('Expect an UnitCellRPUConfig.')
        return TransferSimulatorTile(x_size, d_size, rpu_config, dtype=self.get_data_type())

    def forward(self, x_input: Tensor, tensor_view: Optional[Tuple]=None):
        out = AnalogFunction.apply(self.get_analog_ctx(), self, x_input, self.shared_weights, not self.training)
        if tensor_view is None:
            tensor_view = self.get_tensor_view(out.dim())
        out = self.apply_out_scaling(out, tensor_view)
        if self.digital_bias:
            return out + self.bias.view(*tensor_view)
        return out

    def post_update_step(self):
        self.tile.post_update_step()

    def replace_with(self, rpu_config: RPUConfigBase):
        raise NotImplementedError



@of("aihwkit.simulator.tiles.array.TileModuleArray")
class TileModuleArray:
    supports_indexed = False

    def __init__(self, out_size: int, in_size: int, rpu_config: 'MappableRPU', bias: bool=False, **kwargs: Any):
        super().__init__()
        if bias:
            self.bias = Parameter(zeros(out_size), requires_grad=True)
        else:
            self.bias = None
        max_input_size = rpu_config.mapping.max_input_size
        max_output_size = rpu_config.mapping.max_output_size
        self.in_size = in_size
        self.out_size = out_size
        self.in_sizes = self.get_split_sizes(in_size, max_input_size)
        self.out_sizes = self.get_split_sizes(out_size, max_output_size)
        self.analog_tile_count = len(self.in_sizes) * len(self.out_sizes)
        self.array = ModuleList()
        for in_tile_size in self.in_sizes:
            in_tiles = ModuleList()
            for out_tile_size in self.out_sizes:
                tile = rpu_config.tile_class(out_tile_size, in_tile_size, rpu_config, bias=False, **kwargs)
                in_tiles.append(tile)
            self.array.append(in_tiles)

    def get_split_sizes(self, size: int, split_max_size: int):
        if split_max_size <= 0:
            return [size]
        n_splits = (size + split_max_size - 1) // split_max_size
        base, extra = divmod(size, n_splits)
        return [base + (i < extra) for i in range(n_splits)]

    def set_weights(self, weight: Tensor, bias: Optional[Tensor]=None, **kwargs: Any):
        shape = [self.out_size, self.in_size]
        weight = weight.detach().reshape(shape)
        in_start = in_end = 0
        for in_size, in_tiles in zip(self.in_sizes, self.array):
            in_end += in_size
            out_start = out_end = 0
            for out_size, analog_tile in zip(self.out_sizes, in_tiles):
                out_end += out_size
                tile_weight = weight[out_start:out_end, in_start:in_end]
                analog_tile.set_weights(tile_weight, None, **kwargs)
                out_start = out_end
            in_start = in_end
        if self.bias is not None and bias is not None:
            self.bias.data.copy_(bias)

    def get_weights(self, **kwargs: Any):
        weight_lst = []
        for in_tiles in self.array:
            in_tile_weight = []
            for analog_tile in in_tiles:
                tile_weight, _ = analog_tile.get_weights(**kwargs)
                in_tile_weight.append(tile_weight)
            weight_lst.append(cat(in_tile_weight, 0))
        weight = cat(weight_lst, 1)
        if self.bias is not None:
            return (weight, self.bias.detach().cpu().clone())
        return (weight, None)

    def forward(self, x_input: Tensor, tensor_view: Optional[Tuple]=None):
        if self.analog_tile_count == 1:
            analog_tile = self.array[0][0]
            result = analog_tile(x_input)
        else:
            last_dim = x_input.ndim - 1
            splits = split(x_input, self.in_sizes, dim=last_dim)
            result = None
            for idx, (x, in_tiles) in enumerate(zip(splits, self.array)):
                out_result = []
                for analog_tile in in_tiles:
                    out_result.append(analog_tile(x, tensor_view=tensor_view))
                if idx == 0:
                    result = cat(out_result, last_dim)
                else:
                    result.add_(cat(out_result, last_dim))
        if self.bias is not None:
            if tensor_view is None:
                tensor_view = analog_tile.get_tensor_view(result.dim())
            return result + self.bias.view(*tensor_view)
        return result

    def _apply_to_tiles(self, method_name: str, *args: Any, **kwargs: Any):
        out_values = []
        for in_tiles in self.array:
            out_values_row = []
            for analog_tile in in_tiles:
                if not hasattr(analog_tile, method_name):
                    raise TileModuleError(f"Tile does not have method '{method_name}'")
                out_values_row.append(getattr(analog_tile, method_name)(*args, **kwargs))
            out_values.append(out_values_row)
        return out_values



@of("aihwkit.simulator.tiles.array.QuantizedTileModuleArray")
class QuantizedTileModuleArray:
    def __init__(self, out_size: int, in_size: int, rpu_config: 'QuantizedTorchInferenceRPUConfig', bias: bool=False, **kwargs: Any):
        super().__init__(out_size, in_size, rpu_config, bias, **kwargs)
        self.periph_quant = rpu_config.pre_post.periph_quant
        self.module_out_quantizer = None
        if self.analog_tile_count > 1:
            if rpu_config.act_quant_config is not None and rpu_config.act_quant_config.n_bits > 0:
                self.module_out_quantizer = QuantizedActivation(**convert_act_config_to_kwargs_dict(rpu_config.act_quant_config))
                self.module_out_quantizer.quantized_acts()
        if self.bias is not None:
            if rpu_config.pre_post.periph_quant.n_bits > 0:
                periph_quant = rpu_config.pre_post.periph_quant
                self.bias_quantizer = QuantizationManager(qmethod=QMethods.symmetric_uniform if periph_quant.symmetric else QMethods.asymmetric_uniform, qparams={'n_bits': periph_quant.n_bits}, init=RangeEstimators.current_minmax)
                if periph_quant.learn_quant_params:
                    self.bias_quant_update_idx = Parameter(full((1,), 0.0, device=self.bias.device), requires_grad=False)
            else:
                self.bias_quantizer = None

    def forward(self, x_input: Tensor, tensor_view: Optional[Tuple]=None):
        if self.analog_tile_count == 1:
            analog_tile = self.array[0][0]
            result = analog_tile(x_input)
        else:
            last_dim = x_input.ndim - 1
            splits = split(x_input, self.in_sizes, dim=last_dim)
            result = None
            for idx, (x, in_tiles) in enumerate(zip(splits, self.array)):
                out_result = []
                for analog_tile in in_tiles:
                    out_result.append(analog_tile(x, tensor_view=tensor_view))
                if idx == 0:
                    result = cat(out_result, last_dim)
                else:
                    result.add_(cat(out_result, last_dim))
        if self.bias is not None:
            if tensor_view is None:
                tensor_view = analog_tile.get_tensor_view(result.dim())
            if self.bias_quantizer is None:
                result += self.bias.view(*tensor_view)
            elif not self.training and (not self.bias_quantizer.quantizer.is_initialized):
                self.bias_quantizer.estimate_ranges()
                q_bias = self.bias_quantizer(self.bias)
                self.bias_quantizer.fix_ranges()
                result += q_bias.view(*tensor_view)
            else:
                if self.training and self.periph_quant.learn_quant_params and (not self.bias_quantizer.is_learning()):
                    self.bias_quant_update_idx.data += 1
                    if self.bias_quant_update_idx > self.periph_quant.init_learning_after:
                        self.bias_quantizer.learn_ranges()
                result += self.bias_quantizer(self.bias).view(*tensor_view)
        if self.module_out_quantizer is not None:
            result = self.module_out_quantizer(result)
        return result



@of("aihwkit.simulator.tiles.analog.AnalogTile")
class AnalogTile:
    def __init__(self, out_size: int, in_size: int, rpu_config: RPUConfigGeneric, bias: bool=False, in_trans: bool=False, out_trans: bool=False):
        TileModule.__init__(self)
        RPUCudaSimulatorTileWrapper.__init__(self, out_size, in_size, rpu_config, bias, in_trans, out_trans)
        TileWithPeriphery.__init__(self)

    def _create_simulator_tile(self, x_size: int, d_size: int, rpu_config: RPUConfigGeneric):
        meta_parameter = rpu_config.as_bindings()
        device_parameter = rpu_config.device.as_bindings(self.get_data_type())
        return meta_parameter.create_array(x_size, d_size, device_parameter)

    def forward(self, x_input: Tensor, tensor_view: Optional[Tuple]=None):
        out = AnalogFunction.apply(self.get_analog_ctx(), self, x_input, self.shared_weights, not self.training)
        if tensor_view is None:
            tensor_view = self.get_tensor_view(out.dim())
        out = self.apply_out_scaling(out, tensor_view)
        if self.digital_bias:
            return out + self.bias.view(*tensor_view)
        return out



@of("aihwkit.simulator.tiles.analog.AnalogTileWithoutPeriphery")
class AnalogTileWithoutPeriphery:
    supports_indexed = False

    def __init__(self, out_size: int, in_size: int, rpu_config: RPUConfigGeneric, bias: bool=False, in_trans: bool=False, out_trans: bool=False):
        TileModule.__init__(self)
        RPUCudaSimulatorTileWrapper.__init__(self, out_size, in_size, rpu_config, bias, in_trans, out_trans)

    def _create_simulator_tile(self, x_size: int, d_size: int, rpu_config: RPUConfigGeneric):
        meta_parameter = rpu_config.as_bindings()
        device_parameter = rpu_config.device.as_bindings(self.get_data_type())
        return meta_parameter.create_array(x_size, d_size, device_parameter)

    def forward(self, x_input: Tensor):
        return AnalogFunction.apply(self.get_analog_ctx(), self, x_input, self.shared_weights, not self.training)

    def joint_forward(self, x_input: Tensor, is_test: bool=False, ctx: Any=None):
        return self.tile.forward(x_input, self.analog_bias, self.in_trans, self.out_trans, is_test, self.non_blocking)

    def backward(self, d_input: Tensor, ctx: Any=None):
        return self.tile.backward(d_input, self.analog_bias, self.out_trans, self.in_trans, self.non_blocking)

    def update(self, x_input: Tensor, d_input: Tensor):
        return self.tile.update(x_input, d_input, self.analog_bias, self.in_trans, self.out_trans, self.non_blocking)

    def set_learning_rate(self, learning_rate: Optional[float]):
        if learning_rate is not None:
            self.tile.set_learning_rate(learning_rate)

    def get_learning_rate(self):
        return self.tile.get_learning_rate()



@of("aihwkit.simulator.tiles.floating_point.FloatingPointTile")
class FloatingPointTile:
    def __init__(self, out_size: int, in_size: int, rpu_config: 'FloatingPointRPUConfig', bias: bool=False, in_trans: bool=False, out_trans: bool=False):
        TileModule.__init__(self)
        RPUCudaSimulatorTileWrapper.__init__(self, out_size, in_size, rpu_config, bias, in_trans, out_trans)
        TileWithPeriphery.__init__(self)

    def _create_simulator_tile(self, x_size: int, d_size: int, rpu_config: RPUConfigGeneric):
        meta_parameter = rpu_config.device.as_bindings(self.get_data_type())
        return meta_parameter.create_array(x_size, d_size)

    def forward(self, x_input: Tensor, tensor_view: Optional[Tuple]=None):
        out = AnalogFunction.apply(self.get_analog_ctx(), self, x_input, self.shared_weights, not self.training)
        if tensor_view is None:
            tensor_view = self.get_tensor_view(out.dim())
        out = self.apply_out_scaling(out, tensor_view)
        if self.digital_bias:
            return out + self.bias.view(*tensor_view)
        return out



@of("aihwkit.simulator.tiles.quantized_inference_torch.QuantizedTorchInferenceTile")
class QuantizedTorchInferenceTile:
    def __init__(self, out_size: int, in_size: int, rpu_config: Optional['QuantizedTorchInferenceRPUConfig']=None, bias: bool=False, in_trans: bool=False, out_trans: bool=False):
        if not rpu_config:
            from aihwkit.simulator.configs import QuantizedTorchInferenceRPUConfig
            rpu_config = QuantizedTorchInferenceRPUConfig()
        super().__init__(out_size, in_size, rpu_config, bias, in_trans, out_trans)
        if rpu_config.act_quant_config is not None and rpu_config.act_quant_config.n_bits > 0:
            self.out_quantizer = QuantizedActivation(**convert_act_config_to_kwargs_dict(rpu_config.act_quant_config))
            self.out_quantizer.quantized_acts()
        else:
            self.out_quantizer = None

    def forward(self, x_input: Tensor, tensor_view: Optional[Tuple]=None):
        self.tile.set_config(self.rpu_config)
        out = self.joint_forward(x_input, is_test=not self.training)
        if self.digital_bias:
            if tensor_view is None:
                tensor_view = self.get_tensor_view(out.dim())
            out = self.add_quant_periphery_bias(out, tensor_view, is_test=not self.training)
        if self.out_quantizer is not None:
            out = self.out_quantizer(out)
        return out



@of("aihwkit.simulator.tiles.utils.UniformQuantize")
class UniformQuantize:
    @staticmethod
    def forward(ctx: FunctionCtx, inp: Tensor, res: float, bound: float, stochastic: bool=False):
        res = 1 / res if res > 1.0 else res
        assert res > 0, 'resolution is <= 0'
        res *= 2 * bound
        output = inp.clone()
        output = output / res
        ctx.stochastic = stochastic
        if ctx.stochastic:
            noise = output.new(output.shape).uniform_(-0.5, 0.5)
            output.add_(noise)
            output = output.round()
        else:
            output = output.round()
        output *= res
        return output

    @staticmethod
    def backward(ctx: FunctionCtx, grad_output: Tensor):
        grad_input = grad_output
        return (grad_input, None, None, None)



@of("aihwkit.simulator.tiles.base.BaseTile")
class BaseTile:
    def joint_forward(self, x_input: Tensor, is_test: bool=False, ctx: Any=None):
        raise NotImplementedError

    def backward(self, d_input: Tensor, ctx: Any=None):
        raise NotImplementedError

    def update(self, x_input: Tensor, d_input: Tensor):
        raise NotImplementedError


"""Reference definitions of the tile layer (parsed, never run): what each method computes, stores and calls, confirmed by reading."""


@of("aihwkit.simulator.tiles.periphery.TileWithPeriphery", opaque=["get_forward_out_bound"])
class TileWithPeriphery:
    supports_indexed = True

    def set_weights(self, weight: Tensor, bias: Optional[Tensor]=None, apply_weight_scaling: bool=True, realistic: bool=False, weight_scaling_omega: Optional[float]=None):
        self.reference_combined_weights = None
        if bias is not None and self.digital_bias:
            if not isinstance(bias, Tensor):
                bias = from_numpy(array(bias))
            self.bias.data.copy_(bias)
            bias = None
        if hasattr(self.tile, 'set_weights_cuda'):
            combined_weights = self._combine_weights_cuda(weight, bias)
            if apply_weight_scaling:
                combined_weights = self.apply_weight_scaling(combined_weights.t().contiguous(), weight_scaling_omega).t().contiguous()
            self.tile.set_weights_cuda(combined_weights)
        else:
            combined_weights = self._combine_weights(weight, bias)
            if apply_weight_scaling:
                combined_weights = self.apply_weight_scaling(combined_weights, weight_scaling_omega)
            self.tile.set_weights(combined_weights)
        self._sync_analog_ctx_weights()
        if realistic:
            self.program_weights()

    def get_weights(self, apply_weight_scaling: bool=True, realistic: bool=False):
        if realistic:
            return self.read_weights(apply_weight_scaling=apply_weight_scaling)
        if hasattr(self.tile, 'get_weights_cuda'):
            combined_weights = self.tile.get_weights_cuda().t().detach().cpu()
        else:
            combined_weights = self.tile.get_weights()
        weight, bias = self._separate_weights(combined_weights)
        if self.digital_bias:
            bias = self.bias.detach().cpu().clone()
        if not apply_weight_scaling:
            return (weight, bias)
        alpha = self.get_scales()
        if alpha is not None:
            alpha = alpha.detach().cpu()
            return (weight * alpha.view(-1, 1), bias * alpha if self.analog_bias else bias)
        return (weight, bias)

    def program_weights(self, from_reference: bool=True, x_values: Optional[Tensor]=None, learning_rate: float=0.1, max_iter: int=10000, tolerance: Optional[float]=0.01, w_init: Union[float, Tensor]=0.01):
        if not from_reference or self.reference_combined_weights is None:
            self.reference_combined_weights = self.tile.get_weights()
        target_weights = self.reference_combined_weights
        if x_values is None:
            x_values = eye(self.tile.get_x_size())
        x_values = x_values.to(self.device)
        target_values = x_values @ target_weights.to(self.device).T
        target_max = target_values.abs().max().item()
        if isinstance(w_init, Tensor):
            self.tile.set_weights(w_init)
        else:
            self.tile.set_weights_uniform_random(-w_init, w_init)
        lr_save = self.tile.get_learning_rate()
        self.tile.set_learning_rate(learning_rate)
        for _ in range(max_iter):
            y = self.tile.forward(x_values, False)
            error = y - target_values
            if tolerance is not None and error.abs().mean().item() < tolerance * target_max:
                break
            self.tile.update(x_values, error, False)
        self.tile.set_learning_rate(lr_save)

    def remap_weights(self, weight_scaling_omega: Optional[float]=1.0):
        weight, bias = self.get_weights(apply_weight_scaling=True)
        self.set_weights(weight, bias, apply_weight_scaling=True, weight_scaling_omega=weight_scaling_omega)

    def read_weights(self, apply_weight_scaling: bool=False, x_values: Optional[Tensor]=None, over_sampling: int=10):
        dtype = self.get_dtype()
        if x_values is None:
            x_values = randn(self.in_size * over_sampling, self.in_size, device=self.device, dtype=dtype)
        else:
            x_values = x_values.to(self.device)
        if not isinstance(self, Module):
            raise TileError('TileWithPeriphery is expected to be part of a Module')
        was_training = self.training
        is_indexed = self.is_indexed()
        self.eval()
        if is_indexed:
            self.analog_ctx.set_indexed(False)
        y_values = self.forward(x_values)
        if was_training:
            self.train()
        if is_indexed:
            self.analog_ctx.set_indexed(True)
        if self.bias is not None:
            y_values -= self.bias
        if self.analog_bias:
            ones_column = ones(x_values.shape[0], 1, device=self.device, dtype=dtype)
            x_values = cat([x_values, ones_column], axis=1)
        est_weight = lstsq(x_values, y_values).solution.T.cpu()
        weight, bias = self._separate_weights(est_weight)
        if self.digital_bias:
            bias = self.bias.detach().cpu().clone()
        if not apply_weight_scaling:
            alpha = self.get_scales()
            if alpha is not None:
                alpha = alpha.detach().cpu()
                return (weight / alpha.view(-1, 1), bias / alpha if self.analog_bias else bias)
        return (weight, bias)

    def apply_weight_scaling(self, combined_weights: Tensor, weight_scaling_omega: Optional[float]=None):
        if not hasattr(self.rpu_config, 'mapping'):
            return combined_weights
        mapping = self.rpu_config.mapping
        omega = weight_scaling_omega
        if omega is None:
            omega = mapping.weight_scaling_omega
        if omega is not None and omega > 0:
            if mapping.weight_scaling_columnwise:
                weight_max, _ = torch_max(abs(combined_weights), 1, keepdim=True)
            else:
                weight_max = torch_max(abs(combined_weights)).view(1)
            alpha = weight_max / omega
            alpha[alpha == 0.0] = 1.0
            combined_weights = combined_weights / alpha
            self.set_scales(alpha)
        return combined_weights

    def get_mapping_scales(self):
        return self.mapping_scales

    def set_mapping_scales(self, mapping_scales: Optional[Union[Tensor, float]]):
        if mapping_scales is None or not hasattr(self.rpu_config, 'mapping'):
            self.mapping_scales = None
            return
        if isinstance(mapping_scales, float):
            if self.mapping_scales is None:
                self.mapping_scales = ones((1,), dtype=self.get_dtype(), device=self.device)
            self.mapping_scales[:] = mapping_scales
        elif isinstance(self.mapping_scales, Tensor) and len(mapping_scales) == 1:
            self.mapping_scales[:] = mapping_scales.to(self.device)
        else:
            self.mapping_scales = mapping_scales.flatten().to(self.device)
        if getattr(self.rpu_config.mapping, 'weight_scaling_lr_compensation', False):
            self.mapping_lr_scale = 1.0 / self.mapping_scales.mean().item()

    def init_mapping_scales(self):
        if not hasattr(self.rpu_config, 'mapping'):
            self.set_mapping_scales(None)
            return
        mapping = self.rpu_config.mapping
        mapping_scales = None
        if mapping.weight_scaling_omega:
            if mapping.weight_scaling_columnwise:
                mapping_scales = ones((self.out_size,), dtype=self.get_dtype(), device=self.device, requires_grad=False)
            else:
                mapping_scales = ones((1,), dtype=self.get_dtype(), device=self.device, requires_grad=False)
            self.set_mapping_scales(mapping_scales)

    def init_input_processing(self):
        self.input_range = None
        if not isinstance(self.rpu_config, PrePostProcessingRPU):
            return False
        ir_params = self.rpu_config.pre_post.input_range
        if ir_params.enable:
            self.input_range_update_idx = Parameter(full((1,), 0.0, device=self.device, requires_grad=False))
            if ir_params.learn_input_range:
                self.input_range = Parameter(full((1,), ir_params.init_value, dtype=self.get_dtype(), device=self.device, requires_grad=True))
            else:
                input_range = full((1,), ir_params.init_value, dtype=self.get_dtype(), device=self.device, requires_grad=False)
                if hasattr(self, 'input_range') and self.input_range is None:
                    delattr(self, 'input_range')
                self.register_buffer('input_range', input_range)
            if ir_params.manage_output_clipping and (not ir_params.supports_manage_output_clipping(self.rpu_config)):
                raise ConfigError('RPU Config does not support `manage_output_clipping`.')
            return True
        return False

    def set_input_range(self, value: Union[Tensor, float]):
        if self.input_range is None:
            raise ConfigError('Input range is not enabled')
        if isinstance(value, Tensor):
            input_range = value[0].item()
        else:
            input_range = value
        if isinstance(self.input_range, Parameter):
            self.input_range.data[0] = abs(input_range)
        else:
            self.input_range[0] = abs(input_range)

    def set_scales(self, scales: Union[Tensor, float]):
        self.set_mapping_scales(scales)
        self.set_learned_out_scales(1.0)

    def get_scales(self):
        learned_out_scales = self.get_learned_out_scales()
        mapping_scales = self.get_mapping_scales()
        if mapping_scales is None and learned_out_scales is None:
            return None
        if mapping_scales is None:
            return learned_out_scales
        if learned_out_scales is None:
            return mapping_scales
        return mapping_scales * learned_out_scales

    def get_learned_out_scales(self):
        return self.out_scaling_alpha

    def init_learned_out_scales(self):
        if not hasattr(self.rpu_config, 'mapping'):
            return
        mapping = self.rpu_config.mapping
        if mapping.learn_out_scaling:
            if mapping.out_scaling_columnwise:
                self.out_scaling_alpha = Parameter(ones((self.out_size,), dtype=self.get_dtype(), device=self.device, requires_grad=True))
            else:
                self.out_scaling_alpha = Parameter(ones((1,), dtype=self.get_dtype(), device=self.device, requires_grad=True))

    def set_learned_out_scales(self, alpha: Union[Tensor, float]):
        if self.out_scaling_alpha is None:
            return
        if isinstance(self.out_scaling_alpha, Parameter):
            self.out_scaling_alpha.data = self.out_scaling_alpha.data.view(-1)
            self.out_scaling_alpha.data[:] = as_tensor(alpha).to(self.device).view(-1)
        elif isinstance(self.out_scaling_alpha, Tensor):
            self.out_scaling_alpha = self.out_scaling_alpha.view(-1)
            self.out_scaling_alpha[:] = as_tensor(alpha).to(self.device).view(-1)
        else:
            self.out_scaling_alpha = as_tensor(alpha).to(self.device).view(-1)

    def apply_out_scaling(self, values: Tensor, tensor_view: Optional[Tuple[int, ...]]=None):
        if self.out_scaling_alpha is not None:
            if tensor_view is None:
                tensor_view = self.get_tensor_view(values.dim())
            return values * self.out_scaling_alpha.view(*tensor_view)
        return values

    def apply_input_range(self, values: Tensor, update_from_data: bool=False):
        if self.input_range is None:
            return values
        if isinstance(self.rpu_config, PrePostProcessingRPU) and update_from_data:
            ir_params = self.rpu_config.pre_post.input_range
            idx = self.input_range_update_idx
            if idx < ir_params.init_from_data:
                std = values.std()
                if std > 0.0:
                    self.input_range.data = (self.input_range.data * idx + ir_params.init_std_alpha * std) / (idx + 1)
                    self.input_range_update_idx.data += 1
                self.input_range.data = self.input_range.data.abs()
        return clamp(values, min=-abs(self.input_range.item()), max=abs(self.input_range.item()))

    def pre_forward(self, x_input: Tensor, dim: int, is_test: bool=False, ctx: Any=None):
        if self.input_range is not None:
            x_input = self.apply_input_range(x_input, not is_test) / self.input_range
        return x_input

    def post_forward(self, x_output: Tensor, dim: int, is_test: bool=False, ctx: Any=None):
        bound = None
        if self.handle_output_bound:
            bound = self.get_forward_out_bound()
        if bound is not None and ctx is not None:
            grad_zero_msk = logical_or(x_output >= bound, x_output <= -bound)
            ctx.saved_analog_tensors.append(grad_zero_msk)
        if hasattr(self.rpu_config.pre_post, 'periph_quant'):
            x_output = self.apply_quant_periphery_scales(x_output, dim, is_test=is_test)
            return x_output
        scale = None
        if self.input_range is not None:
            scale = self.input_range
        if self.mapping_scales is not None:
            tensor_view = self.get_tensor_view(x_output.dim(), dim)
            if scale is not None:
                scale = scale * self.get_mapping_scales().view(tensor_view)
            else:
                scale = self.get_mapping_scales().view(tensor_view)
        if scale is not None:
            return x_output * scale
        return x_output

    def apply_quant_periphery_scales(self, x_output: Tensor, dim: int, is_test: bool=False):
        tensor_view = self.get_tensor_view(x_output.dim(), dim)
        scale = None
        if self.input_range is not None:
            scale = self.input_range
        if self.mapping_scales is not None:
            if scale is not None:
                scale = scale * self.get_mapping_scales().view(tensor_view)
            else:
                scale = self.get_mapping_scales().view(tensor_view)
        if self.out_scaling_alpha is not None:
            if scale is not None:
                scale = scale * self.out_scaling_alpha.view(tensor_view)
            else:
                scale = self.out_scaling_alpha.view(tensor_view)
        if scale is None:
            return x_output
        if self.scale_quantizer is None:
            return x_output * scale
        if not is_test:
            periph_quant_params = self.rpu_config.pre_post.periph_quant
            if not periph_quant_params.learn_quant_params:
                self.scale_quantizer.estimate_ranges_train()
            elif periph_quant_params.learn_quant_params and (not self.scale_quantizer.is_learning()):
                self.scale_quant_update_idx.data += 1
                if self.scale_quant_update_idx > periph_quant_params.init_learning_after:
                    self.scale_quantizer.learn_ranges()
                else:
                    self.scale_quantizer.estimate_ranges_train()
        elif is_test and (not self.scale_quantizer.quantizer.is_initialized):
            self.scale_quantizer.estimate_ranges()
            q_scale = self.scale_quantizer(scale)
            self.scale_quantizer.fix_ranges()
            return x_output * q_scale
        return x_output * self.scale_quantizer(scale)

    def add_quant_periphery_bias(self, output: Tensor, tensor_view: Optional[Tuple], is_test: bool=False):
        if tensor_view is None:
            tensor_view = self.get_tensor_view(output.dim())
        if self.bias_quantizer is None:
            return output + self.bias.view(*tensor_view)
        if not is_test:
            periph_quant_params = self.rpu_config.pre_post.periph_quant
            if not periph_quant_params.learn_quant_params:
                self.bias_quantizer.estimate_ranges_train()
            elif periph_quant_params.learn_quant_params and (not self.bias_quantizer.is_learning()):
                self.bias_quant_update_idx.data += 1
                if self.bias_quant_update_idx > periph_quant_params.init_learning_after:
                    self.bias_quantizer.learn_ranges()
                else:
                    self.bias_quantizer.estimate_ranges_train()
        elif is_test and (not self.bias_quantizer.quantizer.is_initialized):
            self.bias_quantizer.estimate_ranges()
            q_bias = self.bias_quantizer(self.bias)
            self.bias_quantizer.fix_ranges()
            return output + q_bias.view(*tensor_view)
        return output + self.bias_quantizer(self.bias).view(*tensor_view)

    def joint_forward(self, x_input: Tensor, is_test: bool=False, ctx: Any=None):
        x_input = self.pre_forward(x_input, 0 if self.in_trans else x_input.dim() - 1, is_test, ctx)
        x_output = self.tile.forward(x_input, self.analog_bias, self.in_trans, self.out_trans, is_test, self.non_blocking)
        return self.post_forward(x_output, 0 if self.out_trans else x_output.dim() - 1, is_test, ctx)

    def pre_backward(self, d_input: Tensor, dim: int, ctx: Any=None):
        if self.mapping_scales is not None:
            tensor_view = self.get_tensor_view(d_input.dim(), dim)
            d_input = d_input * self.get_mapping_scales().view(tensor_view)
        if self.handle_output_bound and ctx is not None:
            zero_grad_msk = None if len(ctx.saved_analog_tensors) < 2 else ctx.saved_analog_tensors[1]
            if zero_grad_msk is not None:
                d_input = where(zero_grad_msk, 0.0, d_input)
        return d_input

    def post_backward(self, d_output: Tensor, dim: int, ctx: Any=None):
        if self.input_range is not None and ctx is not None:
            x_input = ctx.saved_analog_tensors[0]
            ir_params = self.rpu_config.pre_post.input_range
            upper_thres = x_input >= self.input_range
            lower_thres = x_input <= -self.input_range
            grad = zeros_like(self.input_range)
            grad += clamp(upper_thres * d_output, min=None, max=0.0).sum()
            grad -= clamp(lower_thres * d_output, min=0.0, max=None).sum()
            if ir_params.gradient_relative:
                grad *= self.input_range
            grad *= ir_params.gradient_scale
            zero_grad_msk = None if len(ctx.saved_analog_tensors) < 2 else ctx.saved_analog_tensors[1]
            if ir_params.manage_output_clipping and zero_grad_msk is not None:
                output_percentage = 1.0 - zero_grad_msk.count_nonzero().item() / d_output.numel()
                grad -= (1.0 - output_percentage) * self.input_range * (output_percentage < ir_params.output_min_percentage)
            if ir_params.decay > 0:
                percentage = (x_input.abs() < self.input_range).float().mean()
                grad += ir_params.decay * self.input_range * (percentage > ir_params.input_min_percentage)
            if self.input_range.grad is None:
                self.input_range.grad = grad
            else:
                self.input_range.grad += grad
        return d_output

    def backward(self, d_input: Tensor, ctx: Any=None):
        d_input = self.pre_backward(d_input, 0 if self.out_trans else d_input.dim() - 1, ctx)
        d_output = self.tile.backward(d_input, self.analog_bias, self.out_trans, self.in_trans, self.non_blocking)
        return self.post_backward(d_output, 0 if self.in_trans else d_output.dim() - 1, ctx)

    def pre_update(self, x_input: Tensor, x_dim: int, d_input: Tensor, d_dim: int):
        if self.input_range is not None:
            x_input = self.apply_input_range(x_input, False) / self.input_range
        if self.mapping_scales is not None:
            tensor_view = self.get_tensor_view(d_input.dim(), d_dim)
            return (x_input, d_input / (self.get_mapping_scales().view(tensor_view) * self.mapping_lr_scale))
        return (x_input, d_input)

    def update(self, x_input: Tensor, d_input: Tensor):
        x_input, d_input = self.pre_update(x_input, 0 if self.in_trans else x_input.dim() - 1, d_input, 0 if self.out_trans else d_input.dim() - 1)
        return self.tile.update(x_input, d_input, self.analog_bias, self.in_trans, self.out_trans, self.non_blocking)

    def is_indexed(self):
        if not self.supports_indexed:
            return False
        if not hasattr(self.tile, 'has_matrix_indices'):
            raise TileError('Expects to find `has_matrix_indices` for indexed interface.')
        return self.tile.has_matrix_indices()

    def set_indexed(self, indices: Tensor, image_sizes: List):
        if isinstance(self.tile, SimulatorTile):
            raise TileError('Only RPUCuda simulator tiles support indexed interface')
        if len(image_sizes) not in (3, 5, 7):
            raise ValueError('image_sizes expects 3, 5 or 7 sizes [C_in, (D_in), H_in, (W_in), (D_out), H_out, (W_out)]')
        if self.in_trans or self.out_trans:
            raise TileError('Transposed indexed versions not supported (assumes NC(D)HW)')
        self.analog_ctx.set_indexed()
        self.image_sizes = image_sizes
        self.tile.set_matrix_indices(indices)

    def joint_forward_indexed(self, x_input: Tensor, is_test: bool=False, ctx: Any=None):
        if not self.image_sizes:
            raise TileError('self.image_sizes is not initialized. Please use set_indexed()')
        n_batch = x_input.size(0)
        channel_out = self.out_size
        if len(self.image_sizes) == 3:
            _, _, height_out = self.image_sizes
            d_tensor = x_input.new_empty((n_batch, channel_out, height_out))
        elif len(self.image_sizes) == 5:
            _, _, _, height_out, width_out = self.image_sizes
            d_tensor = x_input.new_empty((n_batch, channel_out, height_out, width_out))
        elif len(self.image_sizes) == 7:
            _, _, _, _, depth_out, height_out, width_out = self.image_sizes
            d_tensor = x_input.new_empty((n_batch, channel_out, depth_out, height_out, width_out))
        else:
            raise TileError('self.image_sizes length is not 3, 5 or 7')
        x_input = self.pre_forward(x_input, 1, is_test, ctx)
        x_output = self.tile.forward_indexed(x_input, d_tensor, is_test, self.non_blocking)
        return self.post_forward(x_output, 1, is_test, ctx)

    def backward_indexed(self, d_input: Tensor, ctx: Any=None):
        if not self.image_sizes:
            raise TileError('self.image_sizes is not initialized. Please use set_indexed()')
        n_batch = d_input.size(0)
        if len(self.image_sizes) == 3:
            channel_in, height_in, _ = self.image_sizes
            x_tensor = d_input.new_empty((n_batch, channel_in, height_in))
        elif len(self.image_sizes) == 5:
            channel_in, height_in, width_in, _, _ = self.image_sizes
            x_tensor = d_input.new_empty((n_batch, channel_in, height_in, width_in))
        elif len(self.image_sizes) == 7:
            channel_in, depth_in, height_in, width_in, _, _, _ = self.image_sizes
            x_tensor = d_input.new_empty((n_batch, channel_in, depth_in, height_in, width_in))
        else:
            raise TileError('self.image_sizes length is not 3, 5 or 7')
        d_input = self.pre_backward(d_input, 1, ctx)
        d_output = self.tile.backward_indexed(d_input, x_tensor, self.non_blocking)
        return self.post_backward(d_output, 1, ctx)

    def update_indexed(self, x_input: Tensor, d_input: Tensor):
        x_input, d_input = self.pre_update(x_input, 1, d_input, 1)
        return self.tile.update_indexed(x_input, d_input, self.non_blocking)

    def set_learning_rate(self, learning_rate: Optional[float]):
        if learning_rate is not None:
            self.tile.set_learning_rate(learning_rate * self.mapping_lr_scale)

    def get_learning_rate(self):
        return self.tile.get_learning_rate() / self.mapping_lr_scale



@of("aihwkit.simulator.tiles.base.SimulatorTileWrapper")
class SimulatorTileWrapper:
    def __init__(self, out_size: int, in_size: int, rpu_config: RPUConfigGeneric, bias: bool=True, in_trans: bool=False, out_trans: bool=False, torch_update: bool=False, handle_output_bound: bool=False, ignore_analog_state: bool=False):
        self.out_size = out_size
        self.in_size = in_size
        self.rpu_config = deepcopy(rpu_config)
        self.in_trans = in_trans
        self.out_trans = out_trans
        self.handle_output_bound = handle_output_bound
        self.ignore_analog_state = ignore_analog_state
        self.shared_weights = None
        if hasattr(rpu_config, 'mapping'):
            mapping = rpu_config.mapping
        else:
            mapping = MappingParameter()
        self.digital_bias = bias and mapping.digital_bias
        self.use_bias = bias
        self.analog_bias = bias and (not mapping.digital_bias)
        x_size = self.in_size + 1 if self.analog_bias else self.in_size
        d_size = self.out_size
        self.tile = self._create_simulator_tile(x_size, d_size, rpu_config)
        self._shared_weight_tensor = None
        self._bind_shared_weights()
        self.analog_ctx = AnalogContext(self)
        self.analog_ctx.use_torch_update = torch_update

    def _bind_shared_weights(self):
        if not hasattr(self.tile, 'set_shared_weights'):
            return
        try:
            self.tile.get_weights(as_ref=True)
            return
        except TypeError:
            pass
        d_size = self.tile.get_d_size()
        x_size = self.tile.get_x_size()
        is_cuda = 'Cuda' in type(self.tile).__name__
        if is_cuda:
            w_cpu = self.tile.get_weights()
            if hasattr(self, 'analog_ctx') and self.analog_ctx._raw_data().is_cuda:
                tile_device = self.analog_ctx._raw_data().device
            else:
                tile_device = torch_device('cuda', cuda_device(None).idx)
            shared = zeros(x_size, d_size, dtype=self.get_dtype(), device=tile_device)
        else:
            tile_device = torch_device('cpu')
            shared = zeros(d_size, x_size, dtype=self.get_dtype(), device=tile_device)
        self.tile.set_shared_weights(shared)
        if is_cuda:
            shared.copy_(w_cpu.t().to(tile_device))
        self._shared_weight_tensor = shared

    def _get_tile_weights_ref(self):
        if self._shared_weight_tensor is not None:
            if 'Cuda' in type(self.tile).__name__:
                return self._shared_weight_tensor.t()
            return self._shared_weight_tensor
        if hasattr(self.tile, 'get_weights_cuda'):
            return self.tile.get_weights_cuda().t()
        try:
            return self.tile.get_weights(as_ref=True)
        except TypeError:
            return self.tile.get_weights()

    def _sync_analog_ctx_weights(self):
        if not hasattr(self, 'analog_ctx'):
            return
        current = self.analog_ctx._raw_data()
        target_device = current.device
        ref = self._get_tile_weights_ref()
        if current.data_ptr() != ref.data_ptr() or current.device != ref.device:
            self.analog_ctx._replace_raw_data(ref.to(target_device))

    def _copy_weights_to_shared_tensors(self, weights: Tensor):
    
        def copy_to(target: Optional[Tensor]) -> None:
            if target is None:
                return
            source = weights
            if target.shape != source.shape:
                transposed = weights.t()
                if target.shape == transposed.shape:
                    source = transposed
                else:
                    raise TileError('Mismatch with loaded analog state: shared weight shape is unexpected.')
            target.copy_(source.to(device=target.device, dtype=target.dtype))
        with no_grad():
            copy_to(self._shared_weight_tensor)
            shared_weights = getattr(self, 'shared_weights', None)
            if shared_weights is not None:
                target = shared_weights.data
                if not hasattr(self.tile, 'get_weights_cuda') and target.shape != weights.shape:
                    transposed = weights.t()
                    if target.shape != transposed.shape:
                        raise TileError('Mismatch with loaded analog state: shared weight shape is unexpected.')
                    shared_weights.data = weights.to(device=target.device, dtype=target.dtype).clone()
                copy_to(shared_weights.data)

    def _recreate_simulator_tile(self, x_size: int, d_size: int, rpu_config: 'RPUConfigGeneric'):
        return self._create_simulator_tile(x_size, d_size, rpu_config)

    def get_tensor_view(self, ndim: int, dim: Optional[int]=None):
        if dim is None:
            dim = 0 if self.out_trans else ndim - 1
        tensor_view = [1] * ndim
        tensor_view[dim] = -1
        return tuple(tensor_view)

    def get_analog_state(self):
        state = self.__getstate__()
        fields = AnalogTileStateNames.get_field_names()
        rm_fields = []
        for key in state:
            if key not in fields:
                rm_fields.append(key)
        for key in rm_fields:
            state.pop(key)
        return state

    def __getstate__(self):
        current_dict = self.__dict__.copy()
        if getattr(self, 'ignore_analog_state', False):
            return current_dict
        SN = AnalogTileStateNames
        current_dict[SN.WEIGHTS] = self.tile.get_weights()
        current_dict[SN.HIDDEN_PARAMETERS] = self.tile.get_hidden_parameters().data
        current_dict[SN.HIDDEN_PARAMETER_NAMES] = self.tile.get_hidden_parameter_names()
        current_dict[SN.CLASS] = type(self).__name__
        current_dict[SN.LR] = self.tile.get_learning_rate()
        current_dict.pop('tile', None)
        current_dict[SN.CONTEXT] = self.analog_ctx._raw_data().detach()
        current_dict[SN.EXTRA] = self.tile.dump_extra()
        current_dict[SN.VERSION] = __version__
        current_dict.pop('stream', None)
        current_dict.pop('image_sizes', None)
        current_dict.pop('_shared_weight_tensor', None)
        return current_dict

    def __setstate__(self, state: Dict):
        if getattr(self, 'ignore_analog_state', False) or state.get('ignore_analog_state', False):
            self.__dict__.update(state)
            analog_ctx = self.analog_ctx
        else:
            SN = AnalogTileStateNames
            current_dict = state.copy()
            tile_class = current_dict.pop(SN.CLASS, type(self).__name__)
            analog_lr = current_dict.pop(SN.LR, 0.01)
            analog_ctx = current_dict.pop(SN.CONTEXT, None)
            weights = current_dict.pop(SN.WEIGHTS)
            extra = current_dict.pop(SN.EXTRA, None)
            hidden_parameters = current_dict.pop(SN.HIDDEN_PARAMETERS)
            hidden_parameters_names = current_dict.pop(SN.HIDDEN_PARAMETER_NAMES, [])
            current_dict.pop('analog_alpha_scale', None)
            current_dict.pop('image_sizes', None)
            if 'non_blocking' not in current_dict:
                current_dict['non_blocking'] = False
            rpu_config = current_dict.pop('rpu_config')
            if hasattr(self, 'rpu_config'):
                if not self.rpu_config.compatible_with(tile_class):
                    raise TileError(f'Error creating tile. Possible mismatch between {tile_class} and {type(self).__name__}')
                rpu_config.tile_class = self.rpu_config.tile_class
            self.rpu_config = rpu_config
            self.__dict__.update(current_dict)
            x_size = self.in_size + 1 if self.analog_bias else self.in_size
            d_size = self.out_size
            self.tile = self._recreate_simulator_tile(x_size, d_size, self.rpu_config)
            self._shared_weight_tensor = None
            self._bind_shared_weights()
            names = self.tile.get_hidden_parameter_names()
            if len(hidden_parameters_names) > 0 and names != hidden_parameters_names:
                raise TileError('Mismatch with loaded analog state: Hidden parameter structure is unexpected.')
            if not isinstance(hidden_parameters, Tensor):
                hidden_parameters = from_numpy(array(hidden_parameters))
            self.tile.set_hidden_parameters(hidden_parameters)
            if not isinstance(weights, Tensor):
                weights = from_numpy(array(weights))
            self.tile.set_weights(weights)
            self._copy_weights_to_shared_tensors(weights)
            shared_weights = getattr(self, 'shared_weights', None)
            ensure_shared_weights = getattr(self, 'ensure_shared_weights', None)
            if shared_weights is not None and (not shared_weights.is_cuda) and callable(ensure_shared_weights):
                ensure_shared_weights()
            self.tile.set_hidden_parameters(hidden_parameters)
            if analog_lr is not None:
                self.tile.set_learning_rate(analog_lr)
            if extra is not None:
                self.tile.load_extra(extra, False)
        self.analog_ctx = AnalogContext(self)
        if analog_ctx is not None:
            to_device = analog_ctx.device
            if self.analog_ctx.device != to_device:
                self.to(to_device)

    def _combine_weights(self, weight: Union[Tensor, ArrayLike], bias: Optional[Union[Tensor, ArrayLike]]=None):
        d_type = self.get_dtype()
        if not isinstance(weight, Tensor):
            weight = from_numpy(array(weight))
        weight = weight.clone().detach().cpu().to(d_type)
        shape = [self.out_size, self.in_size]
        weight = weight.reshape(shape)
        if self.analog_bias:
            if bias is None:
                raise ValueError('Analog tile has a bias, but no bias given')
            if not isinstance(bias, Tensor):
                bias = from_numpy(array(bias))
            bias = unsqueeze(bias.clone().detach().cpu().to(d_type), 1)
            return cat((weight, bias), dim=1)
        return weight

    def _separate_weights(self, combined_weights: Tensor):
        if self.analog_bias:
            return (Tensor(combined_weights[:, :-1]), Tensor(combined_weights[:, -1]))
        return (combined_weights, None)

    def get_hidden_parameters(self):
        names = self.tile.get_hidden_parameter_names()
        hidden_parameters = self.tile.get_hidden_parameters().detach_()
        ordered_parameters = OrderedDict()
        for idx, name in enumerate(names):
            ordered_parameters[name] = hidden_parameters[idx].clone()
        return ordered_parameters

    def set_hidden_parameters(self, ordered_parameters: 'OrderedDict'):
        if len(ordered_parameters) == 0:
            return
        hidden_parameters = stack(list(ordered_parameters.values()), dim=0)
        names = self.tile.get_hidden_parameter_names()
        if names != list(ordered_parameters.keys()):
            raise TileError('Mismatch with loaded analog state: Hidden parameter structure is unexpected.')
        self.tile.set_hidden_parameters(hidden_parameters)

    @property
    def device(self):
        return self.analog_ctx.device

    def to(self, device):
        if device.type == "cuda":
            self.cuda(device)
        else:
            self.cpu()
        return self

    @property
    def is_cuda(self):
        return self.analog_ctx.is_cuda

    def get_runtime(self):
        if not hasattr(self.rpu_config, "runtime"):
            self.rpu_config.runtime = RuntimeParameter()
        return self.rpu_config.runtime

    def get_data_type(self):
        return self.get_runtime().data_type

    def get_dtype(self):
        return self.get_runtime().data_type.as_torch()

    def cpu(self):
        if not self.is_cuda:
            return self
        self.analog_ctx._replace_raw_data(self.analog_ctx._raw_data().cpu())
        self.analog_ctx.reset(self)
        self._shared_weight_tensor = None
        self._bind_shared_weights()
        self._sync_analog_ctx_weights()
        return self

    def cuda(self, device=None):
        device = torch_device("cuda", cuda_device(device).idx)
        self.analog_ctx._replace_raw_data(self.analog_ctx._raw_data().cuda(device))
        self.analog_ctx.reset(self)
        self._shared_weight_tensor = None
        self._bind_shared_weights()
        self._sync_analog_ctx_weights()
        return self


@of("aihwkit.simulator.tiles.rpucuda.RPUCudaSimulatorTileWrapper")
class RPUCudaSimulatorTileWrapper:
    def __init__(self, out_size: int, in_size: int, rpu_config: RPUConfigGeneric, bias: bool=True, in_trans: bool=False, out_trans: bool=False, shared_weights: bool=False):
        SimulatorTileWrapper.__init__(self, out_size, in_size, rpu_config, bias, in_trans, out_trans, torch_update=False, handle_output_bound=True)
        self.shared_weights = None
        if shared_weights:
            self.shared_weights = Parameter(zeros(out_size, in_size + int(self.analog_bias), dtype=self.get_dtype()))
            self.ensure_shared_weights()

    def get_forward_out_bound(self):
        if hasattr(self.rpu_config, 'forward') and self.rpu_config.forward.out_bound > 0:
            return self.rpu_config.forward.out_scale * self.rpu_config.forward.out_bound * 0.999
        return None

    def ensure_shared_weights(self, shared_weights: Optional[Tensor]=None):
        if shared_weights is not None:
            self.shared_weights.data = shared_weights.data
        if self.shared_weights is not None:
            self.tile.set_shared_weights(self.shared_weights.data)
            self._shared_weight_tensor = self.shared_weights.data

    def set_delta_weights(self, delta_weights: Optional[Tensor]=None):
        if self.shared_weights is not None and delta_weights is not None:
            self.tile.set_delta_weights(delta_weights)

    def reset_delta_weights(self):
        if self.shared_weights is not None:
            self.tile.reset_delta_weights()

    def _get_extra_parameters(self, pre_key: str, full_key: bool=False):
        extra = self.tile.dump_extra()
        if full_key:
            dic = {(key.split(pre_key)[-1], key): tensor(value) for key, value in extra.items() if pre_key in key}
        else:
            dic = {key.split(pre_key)[-1]: tensor(value) for key, value in extra.items() if pre_key in key}
        return (dic, extra)

    def _set_extra_parameters(self, pre_key: str, dic: Dict[str, Any]):
        org_dic, extra = self._get_extra_parameters(pre_key, full_key=True)
        key_lst = []
        for (key, full_key), org_value in org_dic.items():
            if key not in dic:
                continue
            key_lst.append(key)
            new_value = dic[key].tolist()
            if len(new_value) != len(org_value):
                raise ArgumentError(f"Length mismatch in parameter '{key}'!")
            extra[full_key] = new_value
        if len(set(list(dic.keys())) - set(key_lst)) > 0:
            raise ArgumentError('Some given dict key names do not exist!')
        self.load_extra(extra)

    def get_forward_parameters(self):
        return self._get_extra_parameters('fb_pass.fwd.')[0]

    def set_forward_parameters(self, dic: Optional[Dict[str, Tensor]]=None, **kwargs: Dict[str, Tensor]):
        if dic is None:
            dic = kwargs
        return self._set_extra_parameters('fb_pass.fwd.', dic)

    def get_backward_parameters(self):
        return self._get_extra_parameters('fb_pass.bwd.')[0]

    def set_backward_parameters(self, dic: Optional[Dict[str, Tensor]], **kwargs: Dict[str, Tensor]):
        if dic is None:
            dic = kwargs
        return self._set_extra_parameters('fb_pass.bwd.', dic)

    def decay_weights(self, alpha: float=1.0):
        return self.tile.decay_weights(alpha)

    def drift_weights(self, delta_t: float=1.0):
        return self.tile.drift_weights(delta_t)

    def diffuse_weights(self):
        return self.tile.diffuse_weights()

    def reset_columns(self, start_column_idx: int=0, num_columns: int=1, reset_prob: float=1.0):
        return self.tile.reset_columns(start_column_idx, num_columns, reset_prob)

    def reset(self, reset_prob: float=1.0):
        return self.tile.reset_columns(0, -1, reset_prob)

    def dump_extra(self):
        return self.tile.dump_extra()

    def load_extra(self, extra: Dict[str, Any], strict: bool=False):
        self.tile.load_extra(extra, strict)

    def post_update_step(self):
        if self.rpu_config.device.requires_diffusion():
            self.tile.diffuse_weights()
        if self.rpu_config.device.requires_decay():
            self.tile.decay_weights()



@of("aihwkit.simulator.tiles.functions.AnalogFunction")
class AnalogFunction:
    @staticmethod
    def forward(ctx: Any, analog_ctx: AnalogContext, analog_tile: Any, input_: Tensor, shared_weights: Optional[Tensor]=None, is_test: bool=False):
        ctx.analog_ctx = analog_ctx
        ctx.analog_tile = analog_tile
        ctx.shared_weights = None
        ctx.saved_analog_tensors = [input_]
        runtime = analog_tile.get_runtime()
        use_indexed = analog_ctx.use_indexed
        if shared_weights is not None:
            ctx.shared_weights = shared_weights
            analog_tile.ensure_shared_weights(shared_weights)
            analog_ctx.use_torch_update = True
        else:
            analog_ctx.use_torch_update = False
        if use_indexed:
            out = analog_tile.joint_forward_indexed(input_, is_test, ctx)
        else:
            out = analog_tile.joint_forward(input_, is_test, ctx)
        if runtime.offload_input:
            ctx.saved_analog_tensors[0] = ctx.saved_analog_tensors[0].cpu()
        ctx.save_for_backward(*ctx.saved_analog_tensors)
        ctx.saved_analog_tensors = []
        return out

    @staticmethod
    def backward(ctx: Any, grad_output: Tensor):
        analog_ctx = ctx.analog_ctx
        analog_tile = ctx.analog_tile
        ctx.saved_analog_tensors = ctx.saved_tensors
        input_ = ctx.saved_analog_tensors[0]
        runtime = analog_tile.get_runtime()
        shared_weights_grad = None
        use_indexed = analog_ctx.use_indexed
        if ctx.shared_weights is not None:
            analog_tile.ensure_shared_weights(ctx.shared_weights)
        if use_indexed:
            grad_input = analog_tile.backward_indexed(grad_output, ctx)
        else:
            grad_input = analog_tile.backward(grad_output, ctx)
        if analog_ctx.use_torch_update:
            if runtime.offload_input:
                input_ = input_.to(analog_tile.device)
            shared_weights_grad = empty_like(ctx.shared_weights)
            analog_tile.set_delta_weights(shared_weights_grad)
            if use_indexed:
                analog_tile.update_indexed(input_, grad_output)
            else:
                analog_tile.update(input_, grad_output)
            analog_tile.reset_delta_weights()
        else:
            analog_ctx.analog_input.append(input_)
            if runtime.offload_gradient:
                store_gradients = grad_output.cpu()
            else:
                store_gradients = grad_output
            analog_ctx.analog_grad_output.append(store_gradients)
        ctx.saved_analog_tensors = []
        return (None, None, grad_input, shared_weights_grad, None)



@of("aihwkit.simulator.tiles.module.TileModule")
class TileModule:
    def __setstate__(self, state: Dict):
        if hasattr(super(Module, self), '__setstate__'):
            super(Module, self).__setstate__(state)
        else:
            Module.__setstate__(self, state)
        for name in self._parameters:
            self._parameters[name] = getattr(self, name)
        for name in self._buffers:
            self._buffers[name] = getattr(self, name)
        for name in self._modules:
            self._modules[name] = getattr(self, name)

    def _apply_without_context(self, fn: Callable):
        _parameters = self._parameters
        self._parameters = OrderedDict()
        for name, param in _parameters.items():
            if isinstance(param, AnalogContext):
                if param.analog_tile == self:
                    continue
            self._parameters[name] = param
        Module._apply(self, fn)
        self._parameters = _parameters

    def to(self, *args: Any, **kwargs: Any):
        rpu_config = kwargs.pop('rpu_config', None)
        new_args = list(args)
        if len(new_args) > 0 and isinstance(new_args[0], RPUConfigBase):
            rpu_config = args[0]
            del new_args[0]
        if rpu_config is not None:
            self.replace_with(rpu_config)
        device = kwargs.pop('device', None)
        dtype = kwargs.pop('dtype', None)
        for arg in args:
            if isinstance(arg, bool):
                continue
            if isinstance(arg, torch_dtype):
                dtype = arg
            if isinstance(arg, (str, torch_device)):
                device = torch_device(arg) if isinstance(arg, str) else arg
        if device is not None:
            if device.type == 'cuda':
                self.cuda(device)
            else:
                self.cpu()
        if len(new_args) > 0 or len(kwargs) > 0:
            self._apply_without_context(lambda t: t.to(*new_args, **kwargs))
        if dtype is not None:
            self.analog_ctx.to(dtype=dtype)
            scales = self.get_scales()
            if scales is not None:
                self.set_scales(scales)
        return self

    @staticmethod
    def get_analog_state_name(prefix: str):
        return prefix + AnalogTileStateNames.ANALOG_STATE_NAME

    @staticmethod
    def _state_dict_hook(analog_tile: 'TileModule', state_dict: Dict, prefix: str, local_metadata: Dict):
        analog_state_name = TileModule.get_analog_state_name(prefix)
        analog_state = analog_tile.get_analog_state()
        state_dict[analog_state_name] = analog_state

    def state_dict(self, destination: Dict, prefix: str='', keep_vars: bool=False):
        Module.state_dict(self, destination=destination, prefix=prefix, keep_vars=keep_vars)
        if not self.use_state_dict_hooks:
            TileModule._state_dict_hook(self, destination, prefix, {})

    def _load_from_state_dict(self, state_dict: Dict, prefix: str, local_metadata: Dict, strict: bool, missing_keys: List[str], unexpected_keys: List[str], error_msgs: List[str]):
        if not self.use_state_dict_hooks:
            TileModule._load_state_dict_pre_hook(self, state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs)
        Module._load_from_state_dict(self, state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs)
        if not self.use_state_dict_hooks:
            TileModule._load_state_dict_post_hook(self, (missing_keys, unexpected_keys))

    @staticmethod
    def _load_state_dict_post_hook(analog_tile: 'TileModule', incompatible_keys: NamedTuple):
        missing_keys, unexpected_keys = incompatible_keys
        for key in missing_keys.copy():
            if AnalogTileStateNames.SHARED_WEIGHTS in key or key.endswith(AnalogTileStateNames.CONTEXT):
                missing_keys.remove(key)
        for key in unexpected_keys.copy():
            if '.tile.' in key:
                unexpected_keys.remove(key)

    def compatible_with(self, rpu_config: RPUConfigBase):
        if self.strict_rpu_config_check:
            if not isinstance(self.rpu_config, type(rpu_config)) and (not isinstance(rpu_config, type(self.rpu_config))):
                return (False, f'RPU config mismatch: Cannot replace {rpu_config.__class__.__name__} with {self.rpu_config.__class__.__name__}')
        if isinstance(rpu_config, MappableRPU) and isinstance(self.rpu_config, MappableRPU) and (rpu_config.mapping != self.rpu_config.mapping):
            if not self.rpu_config.mapping.compatible_with(rpu_config.mapping):
                return (False, 'MappingParameter mismatch. Cannot in-place change mapping parametersas it might change the model structure.')
        return (True, None)

    def replace_with(self, rpu_config: RPUConfigBase):
        success, msg = self.compatible_with(rpu_config)
        if not success:
            raise TileModuleError(msg)
        analog_state = self.__getstate__()
        analog_state[AnalogTileStateNames.RPU_CONFIG] = deepcopy(rpu_config)
        self.__setstate__(analog_state)

    @staticmethod
    def _load_state_dict_pre_hook(analog_tile: 'TileModule', state_dict: Dict, prefix: str, local_metadata: Dict, strict: bool, missing_keys: List[str], unexpected_keys: List[str], error_msgs: List[str]):
        analog_state_name = TileModule.get_analog_state_name(prefix)
        if analog_state_name not in state_dict:
            state_dict.pop(prefix + AnalogTileStateNames.CONTEXT, None)
            missing_keys.append(analog_state_name)
            return
        shared_weights_key = prefix + AnalogTileStateNames.SHARED_WEIGHTS
        if shared_weights_key in state_dict and isinstance(state_dict[shared_weights_key], Tensor):
            state_dict.pop(shared_weights_key, None)
        state_dict.pop(prefix + AnalogTileStateNames.CONTEXT, None)
        analog_state = state_dict.pop(analog_state_name).copy()
        if not analog_tile.load_rpu_config:
            success, msg = analog_tile.compatible_with(analog_state['rpu_config'])
            if not success:
                raise TileModuleError(msg)
            analog_state['rpu_config'] = analog_tile.rpu_config
        else:
            analog_state['rpu_config'] = deepcopy(analog_state['rpu_config'])
        analog_tile.__setstate__(analog_state)



@of("aihwkit.simulator.tiles.inference.InferenceTileWithPeriphery")
class InferenceTileWithPeriphery:
    def init_mapping_scales(self):
        super().init_mapping_scales()
        if hasattr(self.rpu_config, 'remap') and self.rpu_config.remap.type != WeightRemapType.NONE:
            mapping_scales = ones((self.out_size,), dtype=self.get_dtype(), device=self.device, requires_grad=False)
            self.set_mapping_scales(mapping_scales)

    def set_weights(self, *args: Any, **kwargs: Any):
        self.programmed_weights = None
        super().set_weights(*args, **kwargs)

    def _forward_drift_readout_tensor(self, reset_if: bool=False, exact_reference: bool=False):
        if not hasattr(self.rpu_config, 'drift_compensation') or self.rpu_config.drift_compensation is None:
            return None
        if self.drift_readout_tensor is None or reset_if:
            self.drift_readout_tensor = self.rpu_config.drift_compensation.get_readout_tensor(self.tile.get_x_size()).detach().to(self.device)
            if self.in_trans:
                self.drift_readout_tensor = self.drift_readout_tensor.transpose(0, 1).clone()
        else:
            self.drift_readout_tensor = self.drift_readout_tensor.to(self.device)
        if exact_reference:
            input_ = self.drift_readout_tensor
            if self.in_trans:
                input_ = input_.T
            output = input_ @ self.reference_combined_weights.T
            if self.out_trans:
                output = output.T
        else:
            output = self.tile.forward(self.drift_readout_tensor, False, self.in_trans, self.out_trans, True, self.non_blocking)
        return output

    def program_weights(self, from_reference: bool=True, noise_model: Optional[BaseNoiseModel]=None):
        if not hasattr(self.rpu_config, 'noise_model'):
            raise ConfigError('Seems that RPUConfig is not of type InferenceRPUConfig.')
        if noise_model is not None:
            if not isinstance(noise_model, BaseNoiseModel):
                raise ConfigError("Given noise model has to be of type 'BaseNoiseModel'")
            self.rpu_config.noise_model = noise_model
        if not from_reference or self.reference_combined_weights is None:
            self.reference_combined_weights = Tensor(self.tile.get_weights())
        self.programmed_weights, self.drift_noise_parameters = self.rpu_config.noise_model.apply_programming_noise(self.reference_combined_weights)
        self.tile.set_weights(self.programmed_weights)
        if hasattr(self.rpu_config, 'drift_compensation') and self.rpu_config.drift_compensation is not None:
            self.drift_baseline = self.rpu_config.drift_compensation.init_baseline(self)

    def drift_weights(self, t_inference: float=0.0):
        if not hasattr(self.rpu_config, 'noise_model'):
            raise ConfigError('Seems that RPUConfig is not of type InferenceRPUConfig.')
        if self.programmed_weights is None:
            self.program_weights()
        if hasattr(self, 'nu_drift_list'):
            self.drift_noise_parameters = self.__dict__.pop('nu_drift_list')
        drifted_weights = self.rpu_config.noise_model.apply_drift_noise(self.programmed_weights, self.drift_noise_parameters, t_inference)
        self.tile.set_weights(drifted_weights)
        if hasattr(self.rpu_config, 'drift_compensation') and self.rpu_config.drift_compensation is not None:
            forward_output = self._forward_drift_readout_tensor()
            alpha = self.rpu_config.drift_compensation.apply(forward_output, self.drift_baseline)
            if isinstance(self, Module):
                self.__dict__.pop('alpha', None)
            self.alpha = alpha

    def post_forward(self, x_output: Tensor, dim: int, is_test: bool=False, ctx: Any=None):
        x_output = super().post_forward(x_output, dim, is_test, ctx)
        if is_test and hasattr(self.rpu_config, 'drift_compensation') and (self.rpu_config.drift_compensation is not None):
            return x_output * self.alpha
        return x_output

    def post_update_step(self):
        super().post_update_step()
        data_type = self.get_data_type()
        on_the_fly_bindings = self.get_runtime().on_the_fly_bindings
        if not hasattr(self, '_tmp'):
            self._tmp = {}
        if hasattr(self.rpu_config, 'clip') and self.rpu_config.clip.type != WeightClipType.NONE:
            if on_the_fly_bindings or 'weight_clip_params' not in self._tmp:
                self._tmp['weight_clip_params'] = parameters_to_bindings(self.rpu_config.clip, data_type)
            self.tile.clip_weights(self._tmp['weight_clip_params'])
        if hasattr(self.rpu_config, 'remap') and self.rpu_config.remap.type != WeightRemapType.NONE:
            if on_the_fly_bindings or 'weight_remap_params' not in self._tmp:
                self._tmp['weight_remap_params'] = parameters_to_bindings(self.rpu_config.remap, data_type)
            scales = self.get_scales()
            scales = self.tile.remap_weights(self._tmp['weight_remap_params'], scales)
            self.set_scales(scales)
        if not hasattr(self.rpu_config, 'modifier'):
            return
        if self.rpu_config.modifier.type == WeightModifierType.NONE:
            return
        if self.rpu_config.modifier.type == WeightModifierType.COPY and self.rpu_config.modifier.pdrop <= 0.0:
            return
        if on_the_fly_bindings or 'weight_modify_params' not in self._tmp:
            self._tmp['weight_modify_params'] = parameters_to_bindings(self.rpu_config.modifier, data_type)
        self.tile.modify_weights(self._tmp['weight_modify_params'])

    def __getstate__(self):
        self.__dict__.pop('_tmp', None)
        state = super().__getstate__()
        return state



@of("aihwkit.simulator.tiles.inference.InferenceTile")
class InferenceTile:
    def forward(self, x_input: Tensor, tensor_view: Optional[Tuple]=None):
        out = AnalogFunction.apply(self.get_analog_ctx(), self, x_input, self.shared_weights, not self.training)
        if tensor_view is None:
            tensor_view = self.get_tensor_view(out.dim())
        out = self.apply_out_scaling(out, tensor_view)
        if self.digital_bias:
            return out + self.bias.view(*tensor_view)
        return out



@of("aihwkit.simulator.tiles.inference_torch.TorchInferenceTile")
class TorchInferenceTile:
    supports_indexed = False

    def _create_simulator_tile(self, x_size: int, d_size: int, rpu_config: 'TorchInferenceRPUConfig'):
        return rpu_config.simulator_tile_class(x_size=x_size, d_size=d_size, rpu_config=rpu_config)

    def _recreate_simulator_tile(self, x_size: int, d_size: int, rpu_config: 'TorchInferenceRPUConfig'):
        return self.tile

    def set_scales(self, scales: Tensor):
        super().set_scales(scales)
        if self._backward_hook_handle is not None:
            self._backward_hook_handle.remove()
    
        def hook(grad: Tensor) -> Tensor:
            return grad / scales.to(grad.device).view(-1, 1) ** 2
        if self.tile.weight.requires_grad:
            self._backward_hook_handle = self.tile.register_weight_hook(hook)

    def pre_forward(self, x_input: Tensor, dim: int, is_test: bool=False, ctx: Any=None):
        if self.input_range is not None:
            x_input = self.apply_input_range(x_input, not is_test)
        x_input = InputRangeForward.apply(x_input, self.input_range, self.rpu_config.pre_post.input_range)
        if self.input_range is not None:
            x_input = x_input / self.input_range
        return x_input

    def forward(self, x_input: Tensor, tensor_view: Optional[Tuple]=None):
        self.tile.set_config(self.rpu_config)
        out = self.joint_forward(x_input, is_test=not self.training)
        if tensor_view is None:
            tensor_view = self.get_tensor_view(out.dim())
        out = self.apply_out_scaling(out, tensor_view)
        if self.digital_bias:
            return out + self.bias.view(*tensor_view)
        return out

    def post_update_step(self):
        if hasattr(self.rpu_config, 'clip') and self.rpu_config.clip.type != WeightClipType.NONE:
            self.tile.clip_weights(self.rpu_config.clip)
        if hasattr(self.rpu_config, 'remap') and self.rpu_config.remap.type != WeightRemapType.NONE:
            scales = self.get_scales()
            scales = self.tile.remap_weights(self.rpu_config.remap, scales)
            self.set_scales(scales)

    def get_forward_parameters(self):
        dic = {}
        if self.tile.out_noise_values is not None:
            dic['out_noise_values'] = self.tile.out_noise_values
        return dic

    def set_forward_parameters(self, dic: Optional[Dict[str, Tensor]]=None, **kwargs: Dict[str, Tensor]):
        if dic is None:
            dic = kwargs
        par_lst = ['out_noise_values']
        for par in par_lst:
            if par in dic:
                current_value = getattr(self.tile, par)
                new_value = dic[par]
                if not isinstance(new_value, Tensor):
                    raise ArgumentError(f'{par} type mismatch. Expected tensor!')
                if current_value is None or current_value.size() != new_value.size():
                    raise ArgumentError(f'{par} size mismatch!')
                setattr(self.tile, par, new_value.reshape(*current_value.shape))
        if set(par_lst) != set(list(dic.keys())):
            raise ArgumentError('Unknown parameter keys given!')



@of("aihwkit.simulator.tiles.inference_torch.InputRangeForward")
class InputRangeForward:
    @staticmethod
    def forward(ctx: Any, x_input: Tensor, input_range: Tensor, ir_params: 'InputRangeParameter'):
        ctx.save_for_backward(x_input, input_range)
        ctx.ir_params = ir_params
        return x_input

    @staticmethod
    def backward(ctx: Any, d_output: Tensor):
        x_input, input_range = ctx.saved_tensors
        ir_grad = None
        if input_range is not None:
            ir_params = ctx.ir_params
            upper_thres = x_input >= input_range
            lower_thres = x_input <= -input_range
            ir_grad = zeros_like(input_range)
            ir_grad += clamp(upper_thres * d_output, min=None, max=0.0).sum()
            ir_grad -= clamp(lower_thres * d_output, min=0.0, max=None).sum()
            if ir_params.gradient_relative:
                ir_grad *= input_range
            ir_grad *= ir_params.gradient_scale
            if ir_params.manage_output_clipping:
                raise NotImplementedError
            if ir_params.decay > 0:
                percentage = (x_input.abs() < input_range).float().mean()
                ir_grad += ir_params.decay * input_range * (percentage > ir_params.input_min_percentage)
        return (d_output, ir_grad, None)



@of("aihwkit.simulator.tiles.analog_mvm.AnalogMVM")
class AnalogMVM:
    @classmethod
    def _matmul(cls, weight: Tensor, input_: Tensor, trans: bool=False):
        if weight.ndim == 3:
            if input_.ndim == 2:
                if not trans:
                    return bmm(input_[:, None, :], weight.permute(0, 2, 1))[:, 0, :]
                return bmm(input_[:, None, :], weight)[:, 0, :]
            if not trans:
                return bmm(input_, weight.permute(0, 2, 1))
            return bmm(input_, weight)
        if not trans:
            return input_ @ weight.T
        return input_ @ weight

    @classmethod
    def matmul(cls, weight: Tensor, input_: Tensor, io_pars: IOParameters, trans: bool=False, is_test: bool=False, **fwd_pars: Any):
        if io_pars.is_perfect or io_pars.mv_type == AnalogMVType.IDEAL:
            return cls._matmul(weight, input_, trans)
        nm_scale_values = cls._compute_noise_management(input_=input_, nm_type=io_pars.noise_management, io_pars=io_pars)
        out_size = input_.shape[:-1] + (weight.shape[int(trans)],)
        n_management = io_pars.noise_management != NoiseManagementType.NONE
        b_management = io_pars.bound_management != BoundManagementType.NONE
        if io_pars.inp_noise <= 0.0 and isinstance(nm_scale_values, Tensor) and (nm_scale_values == 0.0).all():
            return zeros(size=out_size, device=input_.device, dtype=input_.dtype)
        if isinstance(nm_scale_values, Tensor):
            nm_scale_values[nm_scale_values <= 0.0] = 1.0
        out_scale = io_pars.out_scale
        scale = 1.0
        scaling = False
        if not b_management:
            if n_management:
                scale = scale / nm_scale_values
                scaling = not (isinstance(scale, Number) and scale == 1.0)
            _, output = cls._compute_analog_mv(weight=weight, input_=input_, trans=trans, scale=scale, scaling=scaling, is_test=is_test, io_pars=io_pars, **fwd_pars)
            if scaling or out_scale != 1.0:
                output *= out_scale / scale
            return output
        bound_test_passed = False
        reduction_due_to_bound_management = 0.5
        inp_res = io_pars.inp_res
        if inp_res > 0:
            inp_res = 1 / inp_res if inp_res > 1.0 else inp_res
            inp_res *= 2.0 * io_pars.inp_bound
        bm_round = 0
        while not bound_test_passed:
            bound_test_passed = True
            reduction_due_to_bound_management *= 2.0
            bm_round += 1
            scaling = False
            scale = 1.0
            if n_management:
                scale /= nm_scale_values
                scaling = not (isinstance(scale, Number) and scale == 1.0)
            if b_management:
                scale /= reduction_due_to_bound_management
                scaling = not (isinstance(scale, Number) and scale == 1.0)
            bound_test_passed, output = cls._compute_analog_mv(weight=weight, input_=input_, trans=trans, scale=scale, scaling=scaling, is_test=is_test, io_pars=io_pars, **fwd_pars)
            bound_test_passed = bound_test_passed or (reduction_due_to_bound_management > io_pars.max_bm_factor or (inp_res > 0.0 and reduction_due_to_bound_management > io_pars.max_bm_res / inp_res))
        if scaling or out_scale != 1.0:
            output *= out_scale / scale
        return output

    @classmethod
    def _compute_analog_mv(cls, weight: Tensor, input_: Tensor, trans: bool, scale: float, scaling: bool, is_test: bool, io_pars: IOParameters, **fwd_pars: Any):
        prepared_input = cls._prepare_input(input_=input_, scale=scale, scaling=scaling, with_asymmetry=io_pars.inp_asymmetry != 0.0, io_pars=io_pars)
        if io_pars.mv_type == AnalogMVType.ONE_PASS:
            out_values = cls._matmul(weight, prepared_input, trans=trans)
            bound_test_passed, finalized_outputs = cls._finalize_output(out_values=out_values, io_pars=io_pars, **fwd_pars)
        elif io_pars.mv_type in [AnalogMVType.POS_NEG_SEPARATE, AnalogMVType.POS_NEG_SEPARATE_DIGITAL_SUM, AnalogMVType.SPLIT_MODE, AnalogMVType.BIT_WISE]:
            raise NotImplementedError
        else:
            raise ConfigError(f'Unknown AnalogMVType {io_pars.mv_type}')
        return (bound_test_passed, finalized_outputs)

    @classmethod
    def _finalize_output(cls, out_values: Tensor, io_pars: IOParameters, out_noise_values: Optional[Tensor]=None, **kwargs: Any):
        bound_test_passed = True
        bound = io_pars.out_bound if io_pars.out_bound > 0 else float('inf')
        asymmetry_scale = 1.0 - io_pars.out_asymmetry
        res = io_pars.out_res
        if io_pars.out_asymmetry != 0.0:
            out_values[out_values < 0] *= asymmetry_scale
        if io_pars.out_noise > 0.0 or out_noise_values is not None:
            if out_noise_values is None:
                out_values += io_pars.out_noise * randn_like(out_values)
            else:
                out_values += randn_like(out_values) * out_noise_values.view(1, -1, *(1,) * (out_values.ndim - 2))
        if res > 0:
            out_values = UniformQuantize.apply(out_values, res, io_pars.out_bound, io_pars.out_sto_round)
        not_clipping = ((out_values <= bound) & (out_values >= -bound)).all()
        out_values = clamp(out_values, min=-bound, max=bound)
        if io_pars.bound_management != BoundManagementType.NONE:
            bound_test_passed = not_clipping
        return (bound_test_passed, out_values)

    @classmethod
    def _prepare_input(cls, input_: Tensor, scale: Tensor, scaling: bool, with_asymmetry: bool, io_pars: IOParameters):
        bound = io_pars.inp_bound if io_pars.inp_bound > 0 else float('inf')
        noise = io_pars.inp_noise
        asymmetry_scale = 1.0 - io_pars.inp_asymmetry
        res = io_pars.inp_res
        scaled_input = input_.clone()
        if scaling:
            scaled_input *= scale
        if io_pars.inp_res > 0:
            scaled_input = UniformQuantize.apply(scaled_input, res, io_pars.inp_bound, io_pars.inp_sto_round)
        if no_grad():
            scaled_input = clamp(scaled_input, min=-bound, max=bound)
        if noise > 0.0:
            scaled_input += noise * randn_like(scaled_input)
        if with_asymmetry:
            scaled_input[scaled_input < 0] *= asymmetry_scale
        return scaled_input

    @classmethod
    def _compute_noise_management(cls, input_: Tensor, nm_type: NoiseManagementType, io_pars: IOParameters, axis: int=-1):
        if nm_type == NoiseManagementType.NONE:
            return 1.0
        if nm_type == NoiseManagementType.ABS_MAX:
            abs_max = input_.abs().max(axis=axis, keepdim=True)[0]
            if io_pars.nm_thres > 0.0:
                return clamp(abs_max, max=io_pars.nm_thres)
            return abs_max
        if nm_type == NoiseManagementType.CONSTANT:
            return io_pars.nm_thres if io_pars.nm_thres > 0.0 else 1.0
        if nm_type == NoiseManagementType.MAX:
            _max = input_.max(axis=axis, keepdim=True)[0]
            if io_pars.nm_thres > 0.0:
                return clamp(_max, max=io_pars.nm_thres)
            return _max
        raise ConfigError(f'Unknown NoiseManagementType {nm_type}')

    @classmethod
    def check_support(cls, io_pars: IOParameters):
        if io_pars.mv_type != AnalogMVType.ONE_PASS:
            raise ConfigError('Only AnalogMVType.ONE_PASS supported as forward.mv_type')
        if io_pars.bound_management == BoundManagementType.SHIFT:
            raise ConfigError('Shift bound management not supported in torch tile')
        if io_pars.noise_management in [NoiseManagementType.AVERAGE_ABS_MAX, NoiseManagementType.ABS_MAX_NP_SUM]:
            raise ConfigError('Special noise mangement types not supported.')
        if io_pars.w_noise > 0.0 or io_pars.w_noise_type != WeightNoiseType.NONE:
            raise ConfigError('forward.w_noise not supported in torch tile')
        if io_pars.ir_drop > 0.0:
            raise ConfigError('IR drop not supported in torch tile')
        if io_pars.out_nonlinearity > 0.0:
            raise ConfigError('S-shaped non-linearity not supported in torch tile')
        if io_pars.slope_calibration > 0.0:
            raise ConfigError('Slope calibration not supported in torch tile')
        if io_pars.v_offset_std > 0.0 or io_pars.v_offset_w_min > 0.0 or io_pars.r_series > 0.0:
            raise ConfigError('Voltage offset or R-series not supported in torch tile')
        if io_pars.w_read_asymmetry_dtod > 0.0:
            raise ConfigError('Device polarity read dependence is not supported in torch tile')


"""Reference definitions of the layers (parsed, never run), confirmed by reading."""


@of("aihwkit.nn.modules.base.AnalogLayerBase")
class AnalogLayerBase:
    IS_CONTAINER = False

    def apply_to_analog_layers(self, fn: Callable):
        for _, module in self.named_analog_layers():
            fn(module)
        return self

    def apply_to_analog_tiles(self, fn: Callable):
        for _, analog_tile in self.named_analog_tiles():
            fn(analog_tile)
        return self

    def analog_layers(self):
        for _, layer in self.named_analog_layers():
            yield layer

    def named_analog_layers(self):
        for name, layer in self.named_modules():
            if isinstance(layer, AnalogLayerBase) and (not layer.IS_CONTAINER):
                yield (name, layer)

    def analog_modules(self):
        for layer in self.modules():
            if isinstance(layer, AnalogLayerBase):
                yield layer

    def named_analog_modules(self):
        for name, layer in self.named_modules():
            if isinstance(layer, AnalogLayerBase):
                yield (name, layer)

    def analog_tile_count(self):
        if not hasattr(self, '_analog_tile_counter'):
            self._analog_tile_counter = len(list(self.analog_tiles()))
        return self._analog_tile_counter

    def analog_tiles(self):
        for _, tile in self.named_analog_tiles():
            yield tile

    def named_analog_tiles(self):
        for name, module in self.named_modules():
            if isinstance(module, TileModule):
                yield (name, module)

    def unregister_parameter(self, param_name: str):
        param = getattr(self, param_name, None)
        if not isinstance(param, Parameter):
            raise ModuleError(f'Cannot find parameter {param_name} to unregister')
        delattr(self, param_name)
        setattr(self, param_name, None)

    def get_analog_tile_devices(self):
        return [d.device for d in self.analog_tiles()]

    def set_weights(self, weight: Tensor, bias: Optional[Tensor]=None, **kwargs: Any):
        if hasattr(self, 'analog_module'):
            return self.analog_module.set_weights(weight, bias, **kwargs)
        raise ModuleError(f'set_weights not implemented for {type(self).__name__} ')

    def get_weights(self, **kwargs: Any):
        if hasattr(self, 'analog_module'):
            return self.analog_module.get_weights(**kwargs)
        raise ModuleError(f'get_weights not implemented for {type(self).__name__} ')

    def load_state_dict(self, state_dict: 'OrderedDict[str, Tensor]', strict: bool=True, load_rpu_config: Optional[bool]=None, strict_rpu_config_check: Optional[bool]=None):
        keys_to_delete = []
        for name, param in list(state_dict.items()):
            if name.endswith('analog_ctx') and param.size() == torch_size([]):
                keys_to_delete.append(name)
        if len(keys_to_delete) > 0:
            strict = False
            for key in keys_to_delete:
                del state_dict[key]
            warnings.warn('Some parameters in the loaded checkpoint has empty size(param.size() == torch.Size([])).It could happens because of the loaded checkpointis generated by an older version of aihwkit.The parameter is skipped for compatibility reasons.The loading mode is set to non-strict.It is recommended to re-save the checkpoint with the latest version of aihwkit.Related parameters are: {}'.format(keys_to_delete))
        for analog_tile in self.analog_tiles():
            analog_tile.set_load_rpu_config_state(load_rpu_config, strict_rpu_config_check)
        return super().load_state_dict(state_dict, strict)

    def prepare_for_ddp(self):
        exclude_list = []
        for module in self.modules():
            if isinstance(module, AnalogLayerBase):
                for analog_tile in module.analog_tiles():
                    if not analog_tile.supports_ddp:
                        raise ModuleError('DDP is only supported with some tiles (e.g. Torch/InferenceTile)')
                exclude_list += [AnalogTileStateNames.CONTEXT, AnalogTileStateNames.ANALOG_STATE_NAME]
        exclude_list = list(set(exclude_list))
        params = self.state_dict().keys()
        exclude_params = []
        for param in params:
            for word in exclude_list:
                if word in param and word not in exclude_params:
                    exclude_params.append(param)
                    break
        self._ddp_params_and_buffers_to_ignore = exclude_params

    def drift_analog_weights(self, t_inference: float=0.0):
        if self.training:
            raise ModuleError('drift_analog_weights can only be applied in evaluation mode')
        for analog_tile in self.analog_tiles():
            if isinstance(analog_tile, InferenceTileWithPeriphery):
                analog_tile.drift_weights(t_inference)

    def program_analog_weights(self, noise_model: Optional['BaseNoiseModel']=None):
        if self.training:
            raise ModuleError('program_analog_weights can only be applied in evaluation mode')
        for analog_tile in self.analog_tiles():
            if isinstance(analog_tile, InferenceTileWithPeriphery):
                analog_tile.program_weights(noise_model=noise_model)
            else:
                analog_tile.program_weights()

    def remap_analog_weights(self, weight_scaling_omega: Optional[float]=1.0):
        for analog_tile in self.analog_tiles():
            analog_tile.remap_weights(weight_scaling_omega=weight_scaling_omega)

    def replace_rpu_config(self, rpu_config: RPUConfigBase):
        for analog_tile in self.analog_tiles():
            analog_tile.to(rpu_config)



@of("aihwkit.nn.modules.linear.AnalogLinear")
class AnalogLinear:
    def __init__(self, in_features: int, out_features: int, bias: bool=True, rpu_config: Optional[RPUConfigBase]=None, tile_module_class: Optional[Type]=None):
        Linear.__init__(self, in_features, out_features, bias=bias)
        if rpu_config is None:
            from aihwkit.simulator.configs.configs import SingleRPUConfig
            rpu_config = SingleRPUConfig()
        AnalogLayerBase.__init__(self)
        if tile_module_class is None:
            tile_module_class = rpu_config.get_default_tile_module_class(out_features, in_features)
        self.analog_module = tile_module_class(out_features, in_features, rpu_config, bias)
        self.unregister_parameter('weight')
        if bias:
            self.unregister_parameter('bias')
        else:
            self._parameters.pop('bias', None)
        self.bias = bias
        self.reset_parameters()

    def reset_parameters(self):
        if hasattr(self, 'analog_module'):
            bias = self.bias
            self.weight, self.bias = self.get_weights()
            super().reset_parameters()
            self.set_weights(self.weight, self.bias)
            del self.weight, self.bias
            self.weight, self.bias = (None, bias)

    def forward(self, x_input: Tensor):
        return self.analog_module(x_input)

    @classmethod
    def from_digital(cls, module: Linear, rpu_config: RPUConfigBase, tile_module_class: Optional[Type]=None):
        analog_layer = cls(module.in_features, module.out_features, module.bias is not None, rpu_config, tile_module_class)
        analog_layer.set_weights(module.weight, module.bias)
        return analog_layer.to(module.weight.device)

    @classmethod
    def to_digital(cls, module: 'AnalogLinear', realistic: bool=False):
        weight, bias = module.get_weights(realistic=realistic)
        digital_layer = Linear(module.in_features, module.out_features, bias is not None)
        digital_layer.weight.data = weight.data
        if bias is not None:
            digital_layer.bias.data = bias.data
        analog_tile = next(module.analog_tiles())
        return digital_layer.to(device=analog_tile.device, dtype=analog_tile.get_dtype())



@of("aihwkit.nn.modules.linear_mapped.AnalogLinearMapped")
class AnalogLinearMapped:
    def __init__(self, in_features: int, out_features: int, bias: bool=True, rpu_config: Optional[MappableRPU]=None, tile_module_class: Optional[Type]=TileModuleArray):
        super().__init__(in_features, out_features, bias, rpu_config, tile_module_class)

    @classmethod
    def from_digital(cls, module: Linear, rpu_config: RPUConfigBase, tile_module_class: Optional[Type]=TileModuleArray):
        if not isinstance(rpu_config, MappableRPU):
            raise ConfigError('Only mappable RPUConfigs are supported.')
        analog_layer = cls(module.in_features, module.out_features, module.bias is not None, rpu_config, tile_module_class)
        analog_layer.set_weights(module.weight, module.bias)
        return analog_layer.to(module.weight.device)



@of("aihwkit.nn.modules.container.AnalogContainerBase")
class AnalogContainerBase:
    IS_CONTAINER = True

    def get_weights(self, **kwargs: Any):
        weights_dic = OrderedDict()
        for name, analog_tile in self.named_analog_tiles():
            weights_dic[name] = analog_tile.get_weights(**kwargs)
        return weights_dic

    def set_weights(self, weights_dic: 'OrderedDict[str, Tuple[Tensor, Optional[Tensor]]]', **kwargs: Any):
        for name, analog_tile in self.named_analog_tiles():
            if name not in weights_dic:
                raise ModuleError('Cannot find tile weight {} in given dictionary.'.format(name))
            analog_tile.set_weights(*weights_dic[name], **kwargs)



@of("aihwkit.nn.modules.container.AnalogSequential")
class AnalogSequential:
    @classmethod
    def from_digital(cls, module: Sequential, *args: Any, **kwargs: Any):
        return cls(OrderedDict(module._modules))

    @classmethod
    def to_digital(cls, module: 'AnalogSequential', *args: Any, **kwargs: Any):
        return Sequential(OrderedDict(module._modules))



@of("aihwkit.nn.modules.container.AnalogWrapper")
class AnalogWrapper:
    def __new__(cls, module: Optional[Module]=None, **__: Any):
        if module is None:
            return super().__new__(cls)
        module_cls = module.__class__
        subclass_name = '{}{}'.format(cls.__name__, module_cls.__name__)
        key = (cls, module_cls)
        if key not in cls.SUBCLASSES:
            cls.SUBCLASSES[key] = new_class(subclass_name, key, {})
        return super().__new__(cls.SUBCLASSES[key])

    def __init__(self, module: Module):
        self.__dict__.update(module.__dict__)

    @classmethod
    def from_digital(cls, module: Module, *args: Any, **kwargs: Any):
        return cls(module)

    @classmethod
    def to_digital(cls, module: 'AnalogWrapper', *args: Any, **kwargs: Any):
        digital_class = module.__class__.__bases__[1]
        new_module = digital_class.__new__(digital_class)
        new_module.__dict__ = module.__dict__
        return new_module



@of("aihwkit.nn.modules.conv._AnalogConvNd")
class _AnalogConvNd:
    NEEDS_INDEXED = False

    def __init__(self, in_channels: int, out_channels: int, kernel_size: Tuple[int, ...], stride: Tuple[int, ...], padding: Tuple[int, ...], dilation: Tuple[int, ...], transposed: bool, output_padding: Tuple[int, ...], groups: int, bias: bool, padding_mode: str, rpu_config: Optional[RPUConfigBase]=None, tile_module_class: Optional[Type]=None, use_indexed: Optional[bool]=None):
        if groups != 1:
            raise ValueError('Only one group is supported')
        if padding_mode != 'zeros':
            raise ValueError('Only "zeros" padding mode is supported')
        _ConvNd.__init__(self, in_channels, out_channels, kernel_size, stride, padding, dilation, transposed, output_padding, groups, bias, padding_mode)
        AnalogLayerBase.__init__(self)
        if rpu_config is None:
            from aihwkit.simulator.configs.configs import SingleRPUConfig
            rpu_config = SingleRPUConfig()
        self.in_features = self.get_tile_size(in_channels, groups, kernel_size)
        self.out_features = out_channels
        if tile_module_class is None:
            tile_module_class = rpu_config.get_default_tile_module_class(out_size=self.out_features, in_size=self.in_features)
        self.analog_module = tile_module_class(self.out_features, self.in_features, rpu_config, bias)
        self.use_indexed = use_indexed
        if not self.analog_module.supports_indexed:
            self.use_indexed = False
        self.fold_indices = Tensor().detach()
        self.input_size = None
        self.tensor_view = (-1,)
        self.unregister_parameter('weight')
        if bias:
            self.unregister_parameter('bias')
        else:
            self._parameters.pop('bias', None)
        self.bias = bias
        self.reset_parameters()

    def get_tile_size(self, in_channels: int, groups: int, kernel_size: Tuple[int, ...]):
        raise NotImplementedError

    def get_image_size(self, size: int, i: int):
        nom = size + 2 * self.padding[i] - self.dilation[i] * (self.kernel_size[i] - 1) - 1
        return nom // self.stride[i] + 1

    def reset_parameters(self):
        if hasattr(self, 'analog_module'):
            bias = self.bias
            self.weight, self.bias = self.get_weights()
            super().reset_parameters()
            self.set_weights(self.weight, self.bias)
            self.weight, self.bias = (None, bias)

    def _recalculate_indexes(self, x_input: Tensor):
        self.fold_indices, image_sizes, _ = self._calculate_indexes(x_input, self.in_channels)
        self.input_size = x_input.shape[1:]
        self.analog_module.set_indexed(self.fold_indices, image_sizes)

    def _calculate_indexes(self, x_input: Tensor, in_channels: int):
        raise NotImplementedError

    def forward(self, x_input: Tensor):
        use_indexed = self.use_indexed
        if use_indexed is None and (not self.NEEDS_INDEXED):
            use_indexed = self.analog_module.is_cuda
        if not use_indexed and self.NEEDS_INDEXED:
            raise ModuleError('Tile module does not support indexed computation.')
        if use_indexed:
            if self.input_size != x_input.shape[1:] or not self.analog_module.is_indexed():
                self._recalculate_indexes(x_input)
            return self.analog_module(x_input, tensor_view=self.tensor_view)
        im_shape = x_input.shape
        x_input_ = unfold(x_input, kernel_size=self.kernel_size, dilation=self.dilation, padding=self.padding, stride=self.stride).transpose(-1, -2)
        out = self.analog_module(x_input_).transpose(-1, -2)
        out_size = (im_shape[-2] + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) // self.stride[0] + 1
        if len(im_shape) == 3:
            return out.view(self.out_channels, out_size, -1)
        return out.view(im_shape[0], self.out_channels, out_size, -1)



@of("aihwkit.nn.modules.conv.AnalogConv1d")
class AnalogConv1d:
    NEEDS_INDEXED = True

    def __init__(self, in_channels: int, out_channels: int, kernel_size: Union[int, Tuple], stride: Union[int, Tuple]=1, padding: Union[int, Tuple]=0, dilation: Union[int, Tuple]=1, groups: int=1, bias: bool=True, padding_mode: str='zeros', rpu_config: Optional['RPUConfigBase']=None, tile_module_class: Optional[Type]=None):
        kernel_size = _single(kernel_size)
        stride = _single(stride)
        padding = _single(padding)
        dilation = _single(dilation)
        if dilation != _single(1):
            raise ValueError('Only dilation = 1 is supported')
        super().__init__(in_channels, out_channels, kernel_size, stride, padding, dilation, False, _single(0), groups, bias, padding_mode, rpu_config, tile_module_class, True)
        self.tensor_view = (-1, 1)

    @classmethod
    def from_digital(cls, module: Conv1d, rpu_config: 'RPUConfigBase', tile_module_class: Optional[Type]=None):
        analog_layer = cls(module.in_channels, module.out_channels, module.kernel_size, module.stride, module.padding, module.dilation, module.groups, module.bias is not None, module.padding_mode, rpu_config, tile_module_class)
        analog_layer.set_weights(module.weight, module.bias)
        return analog_layer.to(module.weight.device)

    @classmethod
    def to_digital(cls, module: 'AnalogConv1d', realistic: bool=False):
        weight, bias = module.get_weights(realistic=realistic)
        digital_layer = Conv1d(module.in_channels, module.out_channels, module.kernel_size, module.stride, module.padding, module.dilation, module.groups, bias is not None, module.padding_mode)
        digital_layer.weight.data = weight.data.view(-1, module.in_channels, *module.kernel_size)
        if bias is not None:
            digital_layer.bias.data = bias.data
        analog_tile = next(module.analog_tiles())
        return digital_layer.to(device=analog_tile.device, dtype=analog_tile.get_dtype())

    def get_tile_size(self, in_channels: int, groups: int, kernel_size: Tuple[int, ...]):
        return in_channels // groups * kernel_size[0]

    def _calculate_indexes(self, x_input: Tensor, in_channels: int):
        input_size = x_input.numel() / x_input.size(0)
        fold_indices = arange(2, x_input.size(2) + 2, dtype=float64).detach()
        shape = [1, 1] + list(x_input.shape[2:])
        fold_indices = fold_indices.reshape(*shape)
        if not all((item == 0 for item in self.padding)):
            fold_indices = pad(fold_indices, pad=[self.padding[0], self.padding[0]], mode='constant', value=0)
        unfolded = fold_indices.unfold(2, self.kernel_size[0], self.stride[0]).clone()
        fold_indices = unfolded.reshape(-1, self.kernel_size[0]).transpose(0, 1).flatten().round()
        fold_indices_orig = fold_indices.clone()
        for i in range(in_channels - 1):
            fold_indices_tmp = fold_indices_orig.clone()
            for j in range(fold_indices_orig.size(0)):
                if fold_indices_orig[j] != 0:
                    fold_indices_tmp[j] += input_size / in_channels * (i + 1)
            fold_indices = cat([fold_indices, fold_indices_tmp], dim=0).clone()
        fold_indices = fold_indices.to(dtype=int32)
        if self.analog_module.analog_bias:
            out_image_size = fold_indices.numel() // self.kernel_size[0]
            fold_indices = cat((fold_indices, ones(out_image_size, dtype=int32)), 0)
        fold_indices = fold_indices.to(x_input.device)
        x_height = x_input.size(2)
        d_height = self.get_image_size(x_height, 0)
        image_sizes = [in_channels, x_height, d_height]
        return (fold_indices, image_sizes, input_size)



@of("aihwkit.nn.modules.conv.AnalogConv2d")
class AnalogConv2d:
    def __init__(self, in_channels: int, out_channels: int, kernel_size: Union[int, Tuple], stride: Union[int, Tuple]=1, padding: Union[int, Tuple]=0, dilation: Union[int, Tuple]=1, groups: int=1, bias: bool=True, padding_mode: str='zeros', rpu_config: Optional['RPUConfigBase']=None, tile_module_class: Optional[Type]=None, use_indexed: Optional[bool]=None):
        kernel_size = _pair(kernel_size)
        stride = _pair(stride)
        padding = _pair(padding)
        dilation = _pair(dilation)
        super().__init__(in_channels, out_channels, kernel_size, stride, padding, dilation, False, _pair(0), groups, bias, padding_mode, rpu_config, tile_module_class, use_indexed)
        self.tensor_view = (-1, 1, 1)

    @classmethod
    def from_digital(cls, module: Conv2d, rpu_config: 'RPUConfigBase', tile_module_class: Optional[Type]=None):
        analog_layer = cls(module.in_channels, module.out_channels, module.kernel_size, module.stride, module.padding, module.dilation, module.groups, module.bias is not None, module.padding_mode, rpu_config, tile_module_class)
        analog_layer.set_weights(module.weight, module.bias)
        return analog_layer.to(module.weight.device)

    @classmethod
    def to_digital(cls, module: 'AnalogConv2d', realistic: bool=False):
        weight, bias = module.get_weights(realistic=realistic)
        digital_layer = Conv2d(module.in_channels, module.out_channels, module.kernel_size, module.stride, module.padding, module.dilation, module.groups, bias is not None, module.padding_mode)
        digital_layer.weight.data = weight.data.view(-1, module.in_channels, *module.kernel_size)
        if bias is not None:
            digital_layer.bias.data = bias.data
        analog_tile = next(module.analog_tiles())
        return digital_layer.to(device=analog_tile.device, dtype=analog_tile.get_dtype())

    def get_tile_size(self, in_channels: int, groups: int, kernel_size: Tuple[int, ...]):
        return in_channels // groups * kernel_size[0] * kernel_size[1]

    def _calculate_indexes(self, x_input: Tensor, in_channels: int):
        input_size = x_input.numel() / x_input.size(0)
        fold_indices = arange(2, input_size + 2, dtype=float64).detach()
        shape = [1] + list(x_input.shape[1:])
        fold_indices = fold_indices.reshape(*shape)
        fold_indices = unfold(fold_indices, kernel_size=self.kernel_size, stride=self.stride, padding=self.padding, dilation=self.dilation).flatten().round().to(dtype=int32)
        if self.analog_module.analog_bias:
            out_image_size = fold_indices.numel() // (self.kernel_size[0] * self.kernel_size[1])
            fold_indices = cat((fold_indices, ones(out_image_size, dtype=int32)), 0)
        fold_indices = fold_indices.to(x_input.device)
        x_height = x_input.size(2)
        x_width = x_input.size(3)
        d_height = self.get_image_size(x_height, 0)
        d_width = self.get_image_size(x_width, 1)
        image_sizes = [in_channels, x_height, x_width, d_height, d_width]
        return (fold_indices, image_sizes, input_size)



@of("aihwkit.nn.modules.conv.AnalogConv3d")
class AnalogConv3d:
    NEEDS_INDEXED = True

    def __init__(self, in_channels: int, out_channels: int, kernel_size: Union[int, Tuple], stride: Union[int, Tuple]=1, padding: Union[int, Tuple]=0, dilation: Union[int, Tuple]=1, groups: int=1, bias: bool=True, padding_mode: str='zeros', rpu_config: Optional['RPUConfigBase']=None, tile_module_class: Optional[Type]=None):
        kernel_size = _triple(kernel_size)
        stride = _triple(stride)
        padding = _triple(padding)
        dilation = _triple(dilation)
        if dilation != _triple(1):
            raise ValueError('Only dilation = 1 is supported')
        super().__init__(in_channels, out_channels, kernel_size, stride, padding, dilation, False, _triple(0), groups, bias, padding_mode, rpu_config, tile_module_class, True)
        self.tensor_view = (-1, 1, 1, 1)

    @classmethod
    def from_digital(cls, module: Conv3d, rpu_config: 'RPUConfigBase', tile_module_class: Optional[Type]=None):
        analog_layer = cls(module.in_channels, module.out_channels, module.kernel_size, module.stride, module.padding, module.dilation, module.groups, module.bias is not None, module.padding_mode, rpu_config, tile_module_class)
        analog_layer.set_weights(module.weight, module.bias)
        return analog_layer.to(module.weight.device)

    @classmethod
    def to_digital(cls, module: 'AnalogConv3d', realistic: bool=False):
        weight, bias = module.get_weights(realistic=realistic)
        digital_layer = Conv3d(module.in_channels, module.out_channels, module.kernel_size, module.stride, module.padding, module.dilation, module.groups, bias is not None, module.padding_mode)
        digital_layer.weight.data = weight.data.view(-1, module.in_channels, *module.kernel_size)
        if bias is not None:
            digital_layer.bias.data = bias.data
        analog_tile = next(module.analog_tiles())
        return digital_layer.to(device=analog_tile.device, dtype=analog_tile.get_dtype())

    def get_tile_size(self, in_channels: int, groups: int, kernel_size: Tuple[int, ...]):
        return in_channels // groups * (kernel_size[0] * kernel_size[1] * kernel_size[2])

    def _calculate_indexes(self, x_input: Tensor, in_channels: int):
        input_size = x_input.numel() / x_input.size(0)
        fold_indices = arange(2, x_input.size(2) * x_input.size(3) * x_input.size(4) + 2, dtype=float64).detach()
        shape = [1] + [1] + list(x_input.shape[2:])
        fold_indices = fold_indices.reshape(*shape)
        if not all((item == 0 for item in self.padding)):
            fold_indices = pad(fold_indices, pad=[self.padding[2], self.padding[2], self.padding[1], self.padding[1], self.padding[0], self.padding[0]], mode='constant', value=0)
        unfolded = fold_indices.unfold(2, self.kernel_size[0], self.stride[0]).unfold(3, self.kernel_size[1], self.stride[1]).unfold(4, self.kernel_size[2], self.stride[2]).clone()
        fold_indices = unfolded.reshape(-1, self.kernel_size[0] * self.kernel_size[1] * self.kernel_size[2]).transpose(0, 1).flatten().round()
        fold_indices_orig = fold_indices.clone()
        for i in range(in_channels - 1):
            fold_indices_tmp = fold_indices_orig.clone()
            for j in range(fold_indices_orig.size(0)):
                if fold_indices_orig[j] != 0:
                    fold_indices_tmp[j] += input_size / in_channels * (i + 1)
            fold_indices = cat([fold_indices, fold_indices_tmp], dim=0).clone()
        fold_indices = fold_indices.to(dtype=int32)
        if self.analog_module.analog_bias:
            out_image_size = fold_indices.numel() // (self.kernel_size[0] * self.kernel_size[1] * self.kernel_size[2])
            fold_indices = cat((fold_indices, ones(out_image_size, dtype=int32)), 0)
        fold_indices = fold_indices.to(x_input.device)
        x_depth = x_input.size(2)
        x_height = x_input.size(3)
        x_width = x_input.size(4)
        d_depth = self.get_image_size(x_depth, 0)
        d_height = self.get_image_size(x_height, 1)
        d_width = self.get_image_size(x_width, 2)
        image_sizes = [in_channels, x_depth, x_height, x_width, d_depth, d_height, d_width]
        return (fold_indices, image_sizes, input_size)



@of("aihwkit.nn.modules.conv_mapped._AnalogConvNdMapped")
class _AnalogConvNdMapped:
    def __init__(self, in_channels: int, out_channels: int, kernel_size: Tuple[int, ...], stride: Tuple[int, ...], padding: Tuple[int, ...], dilation: Tuple[int, ...], transposed: bool, output_padding: Tuple[int, ...], groups: int, bias: bool, padding_mode: str, rpu_config: Optional[MappableRPU]=None, tile_module_class: Optional[Type]=None, use_indexed: Optional[bool]=None):
        if groups != 1:
            raise ValueError('Only one group is supported')
        if padding_mode != 'zeros':
            raise ValueError("Only 'zeros' padding mode is supported")
        _ConvNd.__init__(self, in_channels, out_channels, kernel_size, stride, padding, dilation, transposed, output_padding, groups, bias, padding_mode)
        AnalogLayerBase.__init__(self)
        if rpu_config is None:
            from aihwkit.simulator.configs.configs import SingleRPUConfig
            rpu_config = SingleRPUConfig()
        if tile_module_class is None:
            tile_module_class = rpu_config.tile_class
        if bias and (not rpu_config.mapping.digital_bias):
            raise AnalogBiasConfigError('AnalogConvNdMapped only supports digital bias.')
        max_input_size = rpu_config.mapping.max_input_size
        max_output_size = rpu_config.mapping.max_output_size
        self.in_features = self.get_tile_size(in_channels, groups, kernel_size)
        self.out_features = out_channels
        kernel_elem = self.in_features // self.in_channels
        self.in_sizes = self.get_split_sizes(self.in_features, max_input_size, kernel_elem)
        self.out_sizes = self.get_split_sizes(out_channels, max_output_size)
        self.array = ModuleList()
        for in_tile_size in self.in_sizes:
            in_tiles = ModuleList()
            for out_tile_size in self.out_sizes:
                analog_tile = tile_module_class(out_tile_size, in_tile_size * kernel_elem, rpu_config, bias=False)
                in_tiles.append(analog_tile)
            self.array.append(in_tiles)
        self.set_weights(self.weight, self.bias)
        self.use_indexed = use_indexed
        if use_indexed is None:
            self.use_indexed = True
        self.use_indexed = self.use_indexed and analog_tile.supports_indexed
        self.input_size = None
        self.fold_indices_lst = []
        self.tensor_view = (-1,)
        self.unregister_parameter('weight')
        self.reset_parameters()

    def get_split_sizes(self, size: int, split_max_size: int, group_size: int=1):
        if split_max_size <= 0:
            return [size // group_size]
        if group_size > split_max_size:
            raise ModuleError('Tile size too small to fit a single group (kernel): ' + f'{group_size} > {split_max_size}')
        size_per_group = size // group_size
        split_max_per_group = split_max_size // group_size
        n_splits = (size_per_group + split_max_per_group - 1) // split_max_per_group
        base, extra = divmod(size_per_group, n_splits)
        return [base + (i < extra) for i in range(n_splits)]

    def get_tile_size(self, in_channels: int, groups: int, kernel_size: Tuple[int, ...]):
        raise NotImplementedError

    def get_image_size(self, size: int, i: int):
        nom = size + 2 * self.padding[i] - self.dilation[i] * (self.kernel_size[i] - 1) - 1
        return nom // self.stride[i] + 1

    def reset_parameters(self):
        if hasattr(self, 'array'):
            self.weight, _ = self.get_weights()
            super().reset_parameters()
            self.set_weights(self.weight, self.bias)
            self.weight = None

    def _calculate_indexes(self, x_input: Tensor, in_channels: int):
        raise NotImplementedError

    def _recalculate_indexes(self, x_input: Tensor):
        self.input_size = x_input.shape[1:]
        if x_input.ndim < 3:
            raise ModuleError('Expect >2-dim inputs to convolutions')
        channel_dim = 1
        self.fold_indices_lst = []
        splits = split(x_input, self.in_sizes, dim=channel_dim)
        for x, in_channels, in_tiles in zip(splits, self.in_sizes, self.array):
            fold_indices, image_sizes, _ = self._calculate_indexes(x, in_channels)
            self.fold_indices_lst.append(fold_indices)
            for analog_tile in in_tiles:
                analog_tile.set_indexed(fold_indices, image_sizes)

    def _single_unfold(self, analog_tile: 'TileModule', x_input: Tensor):
        im_shape = x_input.shape
        x_input_ = unfold(x_input, kernel_size=self.kernel_size, dilation=self.dilation, padding=self.padding, stride=self.stride).transpose(1, 2)
        out = analog_tile(x_input_).transpose(1, 2)
        out_im_size = (im_shape[2] + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) // self.stride[0] + 1
        return out.view(im_shape[0], analog_tile.out_size, out_im_size, -1)

    def forward(self, x_input: Tensor):
        analog_tile = self.array[0][0]
        use_indexed = self.use_indexed and analog_tile.supports_indexed
        if use_indexed:
            if self.input_size != x_input.shape[1:] or not analog_tile.is_indexed():
                self._recalculate_indexes(x_input)
        if self.analog_tile_count() == 1:
            if use_indexed:
                output = analog_tile(x_input, tensor_view=self.tensor_view)
            else:
                output = self._single_unfold(analog_tile, x_input)
            if self.bias is not None:
                return output + self.bias.view(*self.tensor_view)
            return output
        channel_dim = 1
        splits = split(x_input, self.in_sizes, dim=channel_dim)
        result = None
        for idx, (x, in_tiles) in enumerate(zip(splits, self.array)):
            out_result = []
            for analog_tile in in_tiles:
                if use_indexed:
                    output = analog_tile(x, tensor_view=self.tensor_view)
                else:
                    output = self._single_unfold(analog_tile, x)
                out_result.append(output)
            if idx == 0:
                result = cat(out_result, channel_dim)
            else:
                result.add_(cat(out_result, channel_dim))
        if self.bias is not None:
            return result + self.bias.view(*self.tensor_view)
        return result

    def set_weights(self, weight: Tensor, bias: Optional[Tensor]=None, **kwargs: Any):
        shape = [self.out_channels, self.in_channels, self.in_features // self.in_channels]
        weight = weight.clone().reshape(shape)
        weight_splits = split(weight, self.in_sizes, dim=1)
        for in_tiles, in_weight in zip(self.array, weight_splits):
            out_start = out_end = 0
            in_weight = in_weight.reshape([self.out_channels, -1])
            for out_size, analog_tile in zip(self.out_sizes, in_tiles):
                out_end += out_size
                tile_weight = in_weight[out_start:out_end, :]
                out_start = out_end
                analog_tile.set_weights(tile_weight, None, **kwargs)
        if self.bias is not None and bias is not None:
            with no_grad():
                self.bias.data[:] = bias[:]

    def get_weights(self, **kwargs: Any):
        weight_lst = []
        for in_tiles in self.array:
            in_tile_weight = []
            for analog_tile in in_tiles:
                tile_weight, _ = analog_tile.get_weights(**kwargs)
                in_tile_weight.append(tile_weight)
            weight_lst.append(cat(in_tile_weight, 0))
        weight = cat(weight_lst, 1)
        if self.bias is not None:
            return (weight, self.bias.data.clone().detach().cpu())
        return (weight, None)



@of("aihwkit.nn.modules.conv_mapped.AnalogConv1dMapped")
class AnalogConv1dMapped:
    def __init__(self, in_channels: int, out_channels: int, kernel_size: Union[int, Tuple[int]], stride: Union[int, Tuple[int]]=1, padding: Union[int, Tuple[int]]=0, dilation: Union[int, Tuple[int]]=1, groups: int=1, bias: bool=True, padding_mode: str='zeros', rpu_config: Optional[MappableRPU]=None, tile_module_class: Optional[Type]=None):
        kernel_size = _single(kernel_size)
        stride = _single(stride)
        padding = _single(padding)
        dilation = _single(dilation)
        if dilation != _single(1):
            raise ValueError('Only dilation = 1 is supported')
        super().__init__(in_channels, out_channels, kernel_size, stride, padding, dilation, False, _single(0), groups, bias, padding_mode, rpu_config, tile_module_class, True)
        self.tensor_view = (-1, 1)

    @classmethod
    def from_digital(cls, module: Conv1d, rpu_config: RPUConfigBase, tile_module_class: Optional[Type]=None):
        if not isinstance(rpu_config, MappableRPU):
            raise ConfigError('Only mappable RPUConfigs are supported.')
        analog_layer = cls(module.in_channels, module.out_channels, module.kernel_size, module.stride, module.padding, module.dilation, module.groups, module.bias is not None, module.padding_mode, rpu_config, tile_module_class)
        analog_layer.set_weights(module.weight, module.bias)
        return analog_layer.to(module.weight.device)

    @classmethod
    def to_digital(cls, module: 'AnalogConv1dMapped', realistic: bool=False):
        weight, bias = module.get_weights(realistic=realistic)
        digital_layer = Conv1d(module.in_channels, module.out_channels, module.kernel_size, module.stride, module.padding, module.dilation, module.groups, bias is not None, module.padding_mode)
        digital_layer.weight.data = weight.data.view(-1, module.in_channels, *module.kernel_size)
        if bias is not None:
            digital_layer.bias.data = bias.data
        return digital_layer

    def get_tile_size(self, in_channels: int, groups: int, kernel_size: Tuple[int, ...]):
        return in_channels // groups * kernel_size[0]

    def _calculate_indexes(self, x_input: Tensor, in_channels: int):
        input_size = x_input.numel() / x_input.size(0)
        fold_indices = arange(2, x_input.size(2) + 2, dtype=float64).detach()
        shape = [1] + [1] + list(x_input.shape[2:])
        fold_indices = fold_indices.reshape(*shape)
        if not all((item == 0 for item in self.padding)):
            fold_indices = pad(fold_indices, pad=[self.padding[0], self.padding[0]], mode='constant', value=0)
        unfolded = fold_indices.unfold(2, self.kernel_size[0], self.stride[0]).clone()
        fold_indices = unfolded.reshape(-1, self.kernel_size[0]).transpose(0, 1).flatten().round()
        fold_indices_orig = fold_indices.clone()
        for i in range(in_channels - 1):
            fold_indices_tmp = fold_indices_orig.clone()
            for j in range(fold_indices_orig.size(0)):
                if fold_indices_orig[j] != 0:
                    fold_indices_tmp[j] += input_size / in_channels * (i + 1)
            fold_indices = cat([fold_indices, fold_indices_tmp], dim=0).clone()
        fold_indices = fold_indices.to(dtype=int32, device=x_input.device)
        x_height = x_input.size(2)
        d_height = self.get_image_size(x_height, 0)
        image_sizes = [in_channels, x_height, d_height]
        return (fold_indices, image_sizes, input_size)



@of("aihwkit.nn.modules.conv_mapped.AnalogConv2dMapped")
class AnalogConv2dMapped:
    def __init__(self, in_channels: int, out_channels: int, kernel_size: Union[int, Tuple[int, int]], stride: Union[int, Tuple[int, int]]=1, padding: Union[int, Tuple[int, int]]=0, dilation: Union[int, Tuple[int, int]]=1, groups: int=1, bias: bool=True, padding_mode: str='zeros', rpu_config: Optional[MappableRPU]=None, tile_module_class: Optional[Type]=None, use_indexed: Optional[bool]=None):
        kernel_size = _pair(kernel_size)
        stride = _pair(stride)
        padding = _pair(padding)
        dilation = _pair(dilation)
        super().__init__(in_channels, out_channels, kernel_size, stride, padding, dilation, False, _pair(0), groups, bias, padding_mode, rpu_config, tile_module_class, use_indexed)
        self.tensor_view = (-1, 1, 1)

    @classmethod
    def from_digital(cls, module: Conv2d, rpu_config: RPUConfigBase, tile_module_class: Optional[Type]=None):
        if not isinstance(rpu_config, MappableRPU):
            raise ConfigError('Only mappable RPUConfigs are supported.')
        analog_layer = cls(module.in_channels, module.out_channels, module.kernel_size, module.stride, module.padding, module.dilation, module.groups, module.bias is not None, module.padding_mode, rpu_config, tile_module_class)
        analog_layer.set_weights(module.weight, module.bias)
        return analog_layer.to(module.weight.device)

    @classmethod
    def to_digital(cls, module: 'AnalogConv2dMapped', realistic: bool=False):
        weight, bias = module.get_weights(realistic=realistic)
        digital_layer = Conv2d(module.in_channels, module.out_channels, module.kernel_size, module.stride, module.padding, module.dilation, module.groups, bias is not None, module.padding_mode)
        digital_layer.weight.data = weight.data.view(-1, module.in_channels, *module.kernel_size)
        if bias is not None:
            digital_layer.bias.data = bias.data
        return digital_layer

    def get_tile_size(self, in_channels: int, groups: int, kernel_size: Tuple[int, ...]):
        return in_channels // groups * kernel_size[0] * kernel_size[1]

    def _calculate_indexes(self, x_input: Tensor, in_channels: int):
        input_size = x_input.numel() / x_input.size(0)
        fold_indices = arange(2, input_size + 2, dtype=float64).detach()
        shape = [1] + list(x_input.shape[1:])
        fold_indices = fold_indices.reshape(*shape)
        fold_indices = unfold(fold_indices, kernel_size=self.kernel_size, stride=self.stride, padding=self.padding, dilation=self.dilation).flatten().round().to(dtype=int32).to(device=x_input.device)
        x_height = x_input.size(2)
        x_width = x_input.size(3)
        d_height = self.get_image_size(x_height, 0)
        d_width = self.get_image_size(x_width, 1)
        image_sizes = [in_channels, x_height, x_width, d_height, d_width]
        return (fold_indices, image_sizes, input_size)



@of("aihwkit.nn.modules.conv_mapped.AnalogConv3dMapped")
class AnalogConv3dMapped:
    def __init__(self, in_channels: int, out_channels: int, kernel_size: Union[int, Tuple[int, int, int]], stride: Union[int, Tuple[int, int, int]]=1, padding: Union[int, Tuple[int, int, int]]=0, dilation: Union[int, Tuple[int, int, int]]=1, groups: int=1, bias: bool=True, padding_mode: str='zeros', rpu_config: Optional[MappableRPU]=None, tile_module_class: Optional[Type]=None):
        kernel_size = _triple(kernel_size)
        stride = _triple(stride)
        padding = _triple(padding)
        dilation = _triple(dilation)
        if dilation != _triple(1):
            raise ValueError('Only dilation = 1 is supported')
        super().__init__(in_channels, out_channels, kernel_size, stride, padding, dilation, False, _triple(0), groups, bias, padding_mode, rpu_config, tile_module_class, True)
        self.tensor_view = (-1, 1, 1, 1)

    @classmethod
    def from_digital(cls, module: Conv3d, rpu_config: RPUConfigBase, tile_module_class: Optional[Type]=None):
        if not isinstance(rpu_config, MappableRPU):
            raise ConfigError('Only mappable RPUConfigs are supported.')
        analog_layer = cls(module.in_channels, module.out_channels, module.kernel_size, module.stride, module.padding, module.dilation, module.groups, module.bias is not None, module.padding_mode, rpu_config, tile_module_class)
        analog_layer.set_weights(module.weight, module.bias)
        return analog_layer.to(module.weight.device)

    @classmethod
    def to_digital(cls, module: 'AnalogConv3dMapped', realistic: bool=False):
        weight, bias = module.get_weights(realistic=realistic)
        digital_layer = Conv3d(module.in_channels, module.out_channels, module.kernel_size, module.stride, module.padding, module.dilation, module.groups, bias is not None, module.padding_mode)
        digital_layer.weight.data = weight.data.view(-1, module.in_channels, *module.kernel_size)
        if bias is not None:
            digital_layer.bias.data = bias.data
        return digital_layer

    def get_tile_size(self, in_channels: int, groups: int, kernel_size: Tuple[int, ...]):
        return in_channels // groups * (kernel_size[0] * kernel_size[1] * kernel_size[2])

    def _calculate_indexes(self, x_input: Tensor, in_channels: int):
        input_size = x_input.numel() / x_input.size(0)
        fold_indices = arange(2, x_input.size(2) * x_input.size(3) * x_input.size(4) + 2, dtype=float64).detach()
        shape = [1] + [1] + list(x_input.shape[2:])
        fold_indices = fold_indices.reshape(*shape)
        if not all((item == 0 for item in self.padding)):
            fold_indices = pad(fold_indices, pad=[self.padding[2], self.padding[2], self.padding[1], self.padding[1], self.padding[0], self.padding[0]], mode='constant', value=0)
        unfolded = fold_indices.unfold(2, self.kernel_size[0], self.stride[0]).unfold(3, self.kernel_size[1], self.stride[1]).unfold(4, self.kernel_size[2], self.stride[2]).clone()
        fold_indices = unfolded.reshape(-1, self.kernel_size[0] * self.kernel_size[1] * self.kernel_size[2]).transpose(0, 1).flatten().round()
        fold_indices_orig = fold_indices.clone()
        for i in range(in_channels - 1):
            fold_indices_tmp = fold_indices_orig.clone()
            for j in range(fold_indices_orig.size(0)):
                if fold_indices_orig[j] != 0:
                    fold_indices_tmp[j] += input_size / in_channels * (i + 1)
            fold_indices = cat([fold_indices, fold_indices_tmp], dim=0).clone()
        fold_indices = fold_indices.to(device=x_input.device, dtype=int32)
        x_depth = x_input.size(2)
        x_height = x_input.size(3)
        x_width = x_input.size(4)
        d_depth = self.get_image_size(x_depth, 0)
        d_height = self.get_image_size(x_height, 1)
        d_width = self.get_image_size(x_width, 2)
        image_sizes = [in_channels, x_depth, x_height, x_width, d_depth, d_height, d_width]
        return (fold_indices, image_sizes, input_size)



value("aihwkit.nn.conversion._DEFAULT_CONVERSION_MAP", {Linear: AnalogLinear, Conv1d: AnalogConv1d, Conv2d: AnalogConv2d, Conv3d: AnalogConv3d, Sequential: AnalogSequential})
value("aihwkit.nn.conversion._DEFAULT_MAPPED_CONVERSION_MAP", {Linear: AnalogLinearMapped, Conv1d: AnalogConv1dMapped, Conv2d: AnalogConv2dMapped, Conv3d: AnalogConv3dMapped, Sequential: AnalogSequential})
value("aihwkit.nn.conversion._DEFAULT_DIGITAL_CONVERSION_SET", {*_DEFAULT_CONVERSION_MAP.values(), *_DEFAULT_MAPPED_CONVERSION_MAP.values()})


@of("aihwkit.nn.conversion.specific_rpu_config_id")
def specific_rpu_config_id(module_name: str, module: Module, rpu_config: RPUConfigGeneric):
    return rpu_config


@of("aihwkit.nn.conversion._replace_children")
def _replace_children(module: Module, new_children: Dict[str, Module]):
    children = module._modules
    for name, new_child in new_children.items():
        old_child = children[name]
        for key, child in children.items():
            if child is old_child:
                children[key] = new_child


@of("aihwkit.nn.conversion.convert_to_analog")
def convert_to_analog(module: Module, rpu_config: RPUConfigGeneric, tile_module_class: Optional[TileModule]=None, conversion_map: Optional[Dict]=None, specific_rpu_config_fun: Optional[Callable]=None, module_name: str='', ensure_analog_root: bool=True, exclude_modules: Optional[List[str]]=None, inplace: bool=False, verbose: bool=False):
    if exclude_modules is None:
        exclude_modules = []
    if not inplace:
        module = deepcopy(module)
    if conversion_map is None:
        conversion_map = _DEFAULT_CONVERSION_MAP
    if not isinstance(conversion_map, dict):
        raise ArgumentError('Conversion map should be a dictionary')
    if specific_rpu_config_fun is None:
        specific_rpu_config_fun = specific_rpu_config_id
    if module.__class__ in conversion_map and module_name not in exclude_modules:
        if verbose:
            print(f"Converted '{module_name}' to '{conversion_map[module.__class__].__name__}'.")
        module = conversion_map[module.__class__].from_digital(module, specific_rpu_config_fun(module_name, module, deepcopy(rpu_config)), tile_module_class)
    convert_dic = {}
    for name, mod in module.named_children():
        full_name = module_name + '.' + name if module_name else name
        if full_name in exclude_modules:
            continue
        n_grand_children = len(list(mod.named_children()))
        if n_grand_children > 0:
            convert_dic[name] = convert_to_analog(mod, rpu_config, tile_module_class, conversion_map, specific_rpu_config_fun, full_name, True, exclude_modules, True, verbose)
            continue
        if mod.__class__ not in conversion_map.keys():
            continue
        if verbose:
            print(f"Converted '{full_name}' to '{conversion_map[mod.__class__].__name__}'.")
        convert_dic[name] = conversion_map[mod.__class__].from_digital(mod, specific_rpu_config_fun(full_name, mod, deepcopy(rpu_config)), tile_module_class)
    _replace_children(module, convert_dic)
    if ensure_analog_root and (not module_name) and (not isinstance(module, AnalogLayerBase)):
        module = AnalogWrapper(module)
    return module


@of("aihwkit.nn.conversion.convert_to_digital")
def convert_to_digital(module: Module, conversion_set: Optional[Set]=None, module_name: str='', inplace: bool=False):
    if not inplace:
        module = deepcopy(module)
    if conversion_set is None:
        conversion_set = _DEFAULT_DIGITAL_CONVERSION_SET
    if not isinstance(conversion_set, set):
        raise ArgumentError('Conversion set should be a set')
    if module.__class__ in conversion_set or isinstance(module, AnalogWrapper):
        if not hasattr(module.__class__, 'to_digital'):
            raise ArgumentError('The conversion set should only contain analog layers that support `to_digital` conversion.')
        module = module.__class__.to_digital(module)
    convert_dic = {}
    for name, mod in module.named_children():
        full_name = module_name + '.' + name if module_name else name
        n_grand_children = len(list(mod.named_children()))
        if n_grand_children > 0:
            convert_dic[name] = convert_to_digital(mod, conversion_set, full_name, inplace=True)
            continue
        if mod.__class__ not in conversion_set:
            continue
        if not hasattr(mod, 'to_digital'):
            raise ArgumentError('The conversion set should only contain analog layers that support `to_digital` conversion.')
        convert_dic[name] = mod.to_digital(mod)
    _replace_children(module, convert_dic)
    return module


@of("aihwkit.nn.modules.rnn.cells.AnalogVanillaRNNCell")
class AnalogVanillaRNNCell:
    def __init__(self, input_size: int, hidden_size: int, bias: bool, rpu_config: Optional[RPUConfigBase]=None, tile_module_class: Optional[Type]=None):
        super().__init__()
        self.input_size = input_size
        self.hidden_size = hidden_size
        self.weight_ih = _get_linear(input_size, hidden_size, bias, rpu_config, tile_module_class)
        self.weight_hh = _get_linear(hidden_size, hidden_size, bias, rpu_config, tile_module_class)

    def get_zero_state(self, batch_size: int):
        param = next(self.parameters())
        return zeros(batch_size, self.hidden_size, device=param.device, dtype=param.dtype)

    def forward(self, input_: Tensor, state: Tensor):
        igates = self.weight_ih(input_)
        hgates = self.weight_hh(state)
        out = tanh(igates + hgates)
        return (out, out)



@of("aihwkit.nn.modules.rnn.cells.AnalogLSTMCell")
class AnalogLSTMCell:
    def __init__(self, input_size: int, hidden_size: int, bias: bool, rpu_config: Optional[RPUConfigBase]=None, tile_module_class: Optional[Type]=None):
        super().__init__()
        self.input_size = input_size
        self.hidden_size = hidden_size
        self.weight_ih = _get_linear(input_size, 4 * hidden_size, bias, rpu_config, tile_module_class)
        self.weight_hh = _get_linear(hidden_size, 4 * hidden_size, bias, rpu_config, tile_module_class)

    def get_zero_state(self, batch_size: int):
        param = next(self.parameters())
        return LSTMState(zeros(batch_size, self.hidden_size, device=param.device, dtype=param.dtype), zeros(batch_size, self.hidden_size, device=param.device, dtype=param.dtype))

    def forward(self, input_: Tensor, state: Tuple[Tensor, Tensor]):
        h_x, c_x = state
        gates = self.weight_ih(input_) + self.weight_hh(h_x)
        in_gate, forget_gate, cell_gate, out_gate = gates.chunk(4, 1)
        in_gate = sigmoid(in_gate)
        forget_gate = sigmoid(forget_gate)
        cell_gate = tanh(cell_gate)
        out_gate = sigmoid(out_gate)
        c_y = forget_gate * c_x + in_gate * cell_gate
        h_y = out_gate * tanh(c_y)
        return (h_y, (h_y, c_y))



@of("aihwkit.nn.modules.rnn.cells.AnalogLSTMCellCombinedWeight")
class AnalogLSTMCellCombinedWeight:
    def __init__(self, input_size: int, hidden_size: int, bias: bool, rpu_config: Optional[RPUConfigBase]=None, tile_module_class: Optional[Type]=None):
        super().__init__()
        self.input_size = input_size
        self.hidden_size = hidden_size
        self.weight = _get_linear(input_size + hidden_size, 4 * hidden_size, bias, rpu_config, tile_module_class)

    def get_zero_state(self, batch_size: int):
        param = next(self.parameters())
        return LSTMState(zeros(batch_size, self.hidden_size, device=param.device, dtype=param.dtype), zeros(batch_size, self.hidden_size, device=param.device, dtype=param.dtype))

    def forward(self, input_: Tensor, state: Tuple[Tensor, Tensor]):
        h_x, c_x = state
        x_input = cat((input_, h_x), 1)
        gates = self.weight(x_input)
        in_gate, forget_gate, cell_gate, out_gate = gates.chunk(4, 1)
        in_gate = sigmoid(in_gate)
        forget_gate = sigmoid(forget_gate)
        cell_gate = tanh(cell_gate)
        out_gate = sigmoid(out_gate)
        c_y = forget_gate * c_x + in_gate * cell_gate
        h_y = out_gate * tanh(c_y)
        return (h_y, (h_y, c_y))



@of("aihwkit.nn.modules.rnn.cells.AnalogGRUCell")
class AnalogGRUCell:
    def __init__(self, input_size: int, hidden_size: int, bias: bool, rpu_config: Optional[RPUConfigBase]=None, tile_module_class: Optional[Type]=None):
        super().__init__()
        if not rpu_config:
            rpu_config = InferenceRPUConfig()
        self.input_size = input_size
        self.hidden_size = hidden_size
        self.weight_ih = AnalogLinear(input_size, 3 * hidden_size, bias, rpu_config, tile_module_class)
        self.weight_hh = AnalogLinear(hidden_size, 3 * hidden_size, bias, rpu_config, tile_module_class)

    def get_zero_state(self, batch_size: int):
        param = next(self.parameters())
        return zeros(batch_size, self.hidden_size, device=param.device, dtype=param.dtype)

    def forward(self, input_: Tensor, state: Tensor):
        g_i = self.weight_ih(input_)
        g_h = self.weight_hh(state)
        i_r, i_i, i_n = g_i.chunk(3, 1)
        h_r, h_i, h_n = g_h.chunk(3, 1)
        reset_gate = sigmoid(i_r + h_r)
        input_gate = sigmoid(i_i + h_i)
        new_gate = tanh(i_n + reset_gate * h_n)
        hidden_y = new_gate + input_gate * (state - new_gate)
        return (hidden_y, hidden_y)



@of("aihwkit.nn.modules.rnn.layers.AnalogRNNLayer")
class AnalogRNNLayer:
    def __init__(self, cell: Type, *cell_args: Any):
        super().__init__()
        self.cell = cell(*cell_args)

    def get_zero_state(self, batch_size: int):
        return self.cell.get_zero_state(batch_size)

    def forward(self, input_: Tensor, state: Union[Tuple[Tensor, Tensor], Tensor]):
        inputs = input_.unbind(0)
        outputs = jit.annotate(List[Tensor], [])
        for input_item in inputs:
            out, state = self.cell(input_item, state)
            outputs += [out]
        return (stack(outputs), state)



@of("aihwkit.nn.modules.rnn.layers.AnalogBidirRNNLayer")
class AnalogBidirRNNLayer:
    def __init__(self, cell: Type, *cell_args: Any):
        super().__init__()
        self.directions = ModuleList([AnalogRNNLayer(cell, *cell_args), AnalogReverseRNNLayer(cell, *cell_args)])

    def get_zero_state(self, batch_size: int):
        return [self.directions[0].get_zero_state(batch_size), self.directions[1].get_zero_state(batch_size)]

    def forward(self, input_: Tensor, states: List[Union[Tuple[Tensor, Tensor], Tensor]]):
        outputs = jit.annotate(List[Tensor], [])
        output_states = jit.annotate(List[Tuple[Tensor, Tensor]], [])
        for direction, state in zip(self.directions, states):
            out, out_state = direction(input_, state)
            outputs += [out]
            output_states += [out_state]
        return (cat(outputs, -1), output_states)



@of("aihwkit.nn.modules.rnn.rnn.ModularRNN")
class ModularRNN:
    def __init__(self, num_layers: int, layer: Type, dropout: float, first_layer_args: Any, other_layer_args: Any):
        super().__init__()
        self.layers = self.init_stacked_analog_lstm(num_layers, layer, first_layer_args, other_layer_args)
        self.num_layers = num_layers
        if num_layers == 1 and dropout > 0:
            warnings.warn('dropout lstm adds dropout layers after all but last recurrent layer, it expects num_layers greater than 1, but got num_layers = 1')
        self.dropout_layer = Dropout(dropout) if dropout > 0.0 else None

    @staticmethod
    def init_stacked_analog_lstm(num_layers: int, layer: Type, first_layer_args: Any, other_layer_args: Any):
        layers = [layer(*first_layer_args)] + [layer(*other_layer_args) for _ in range(num_layers - 1)]
        return ModuleList(layers)

    def get_zero_state(self, batch_size: int):
        return [lay.get_zero_state(batch_size) for lay in self.layers]

    def forward(self, input: Tensor, states: List):
        output_states = jit.annotate(List, [])
        output = input
        for i, rnn_layer in enumerate(self.layers):
            state = states[i]
            output, out_state = rnn_layer(output, state)
            if i < self.num_layers - 1 and self.dropout_layer is not None:
                output = self.dropout_layer(output)
            output_states += [out_state]
        return (output, output_states)



@of("aihwkit.nn.modules.rnn.rnn.AnalogRNN")
class AnalogRNN:
    def __init__(self, cell: Type, input_size: int, hidden_size: int, bias: bool=True, rpu_config: Optional[RPUConfigBase]=None, tile_module_class: Optional[Type]=None, xavier: bool=False, num_layers: int=1, bidir: bool=False, dropout: float=0.0):
        super().__init__()
        if bidir:
            layer = AnalogBidirRNNLayer
            num_dirs = 2
        else:
            layer = AnalogRNNLayer
            num_dirs = 1
        self.rnn = ModularRNN(num_layers, layer, dropout, first_layer_args=[cell, input_size, hidden_size, bias, rpu_config, tile_module_class], other_layer_args=[cell, num_dirs * hidden_size, hidden_size, bias, rpu_config, tile_module_class])
        self.hidden_size = hidden_size
        self.num_layers = num_layers
        self.reset_parameters(xavier)

    def init_layers(self, weight_init_fn: Callable, bias_init_fn: Optional[Callable]=None):
    
        def init_weight_and_bias(weight: Tensor, bias: Optional[Tensor]) -> None:
            weight_init_fn(weight.data)
            if bias is not None:
                if bias_init_fn is None:
                    weight_init_fn(bias.data)
                else:
                    bias_init_fn(bias.data)
        for module in self.modules():
            if isinstance(module, AnalogLinear):
                weight, bias = module.get_weights()
                init_weight_and_bias(weight, bias)
                module.set_weights(weight, bias)
            elif isinstance(module, Linear):
                init_weight_and_bias(module.weight, module.bias)

    def reset_parameters(self, xavier: bool=False):
        if xavier:
            self.init_layers(init.xavier_uniform_, init.zeros_)
        else:
            stdv = 1.0 / math.sqrt(self.hidden_size)
            self.init_layers(lambda x: x.uniform_(-stdv, stdv))

    def get_zero_state(self, batch_size: int):
        return self.rnn.get_zero_state(batch_size)

    def forward(self, input: Tensor, states: Optional[List]=None):
        if states is None:
            states = self.get_zero_state(input.shape[1])
        return self.rnn(input, states)



@of("aihwkit.nn.modules.rnn.cells._get_linear")
def _get_linear(in_size: int, out_size: int, bias: bool, rpu_config: Optional[RPUConfigBase], tile_module_class: Optional[Type]):
    if rpu_config is not None:
        return AnalogLinear(in_size, out_size, bias, rpu_config, tile_module_class)
    return Linear(in_size, out_size, bias)


@of("aihwkit.nn.modules.rnn.layers.AnalogReverseRNNLayer")
class AnalogReverseRNNLayer:
    def __init__(self, cell: Type, *cell_args: Any):
        super().__init__()
        self.cell = cell(*cell_args)

    @staticmethod
    def reverse(lst: List[Tensor]):
        return lst[::-1]

    def get_zero_state(self, batch_size: int):
        return self.cell.get_zero_state(batch_size)

    def forward(self, input_: Tensor, state: Union[Tuple[Tensor, Tensor], Tensor]):
        inputs = self.reverse(input_.unbind(0))
        outputs = jit.annotate(List[Tensor], [])
        for input_values in inputs:
            out, state = self.cell(input_values, state)
            outputs += [out]
        return (stack(self.reverse(outputs)), state)


"""Reference definitions of the analog context and optimizer (parsed, never run), confirmed by reading."""


@of("aihwkit.optim.context.AnalogContext")
class AnalogContext:
    def __new__(cls: Type['AnalogContext'], analog_tile: 'SimulatorTileWrapper', parameter: Optional[Parameter]=None):
        if parameter is None:
            weights_ref = analog_tile._get_tile_weights_ref()
            return Parameter.__new__(cls, data=weights_ref, requires_grad=True)
        parameter.__class__ = cls
        return parameter

    def __init__(self, analog_tile: 'SimulatorTileWrapper', parameter: Optional[Parameter]=None):
        super().__init__()
        self.analog_tile = analog_tile
        self.use_torch_update = False
        self.use_indexed = False
        self._data_view_mode = AnalogContextDataViewMode.PLACEHOLDER
        self._data_buffer = None
        self.analog_input = []
        self.analog_grad_output = []
        self.reset(analog_tile)

    @classmethod
    def __torch_function__(cls, func: Any, _types: Any, args: Any=(), kwargs: Optional[Any]=None):
        kwargs = kwargs or {}
        func_name = getattr(func, '__name__', '')
        if func_name == 'requires_grad_' and args and isinstance(args[0], AnalogContext):
            target = args[0]
            requested = args[1] if len(args) > 1 else kwargs.get('requires_grad', True)
            target.requires_grad = bool(requested)
            return target
    
        def is_readonly(value: Any) -> bool:
            if isinstance(value, AnalogContext):
                return value._get_data_view_mode() != AnalogContextDataViewMode.BUFFER
            return isinstance(value, ReadOnlyWeightView)
        raise_if_readonly_write_target(func_name, args, kwargs, is_readonly)
    
        def to_public_tensor(value: Any) -> Any:
            if isinstance(value, AnalogContext):
                return value._torch_function_data(func_name)
            return value
        args = tree_map(to_public_tensor, args)
        kwargs = tree_map(to_public_tensor, kwargs)
        return func(*args, **kwargs)

    def __setitem__(self, key: Any, value: Any):
        raise RuntimeError('Direct item assignment on analog weights is not allowed. Use analog_tile.set_weights() instead.')

    def __dir__(self):
        keys = set(dir(type(self)))
        keys.update(object.__getattribute__(self, '__dict__'))
        return sorted(keys)

    @staticmethod
    def _coerce_data_view_mode(value: Any):
        if isinstance(value, AnalogContextDataViewMode):
            return value
        if isinstance(value, str):
            for mode in AnalogContextDataViewMode:
                if value == mode.value or value.upper() == mode.name:
                    return mode
        raise ValueError('data_view_mode must be an AnalogContextDataViewMode value, or one of: placeholder, data_view, buffer.')

    def _get_data_view_mode(self):
        try:
            return object.__getattribute__(self, '_data_view_mode')
        except AttributeError:
            return AnalogContextDataViewMode.PLACEHOLDER

    @property
    def data_view_mode(self):
        return self._get_data_view_mode()

    def enable_data_view(self):
        self.data_view_mode = AnalogContextDataViewMode.DATA_VIEW
        return self

    def enable_placeholder(self):
        self.data_view_mode = AnalogContextDataViewMode.PLACEHOLDER
        return self

    def enable_buffer(self):
        self.data_view_mode = AnalogContextDataViewMode.BUFFER
        return self

    def _raw_data(self):
        with DisableTorchFunction():
            return super().__getattribute__('data')

    def _logical_shape(self):
        raw = self._raw_data()
        try:
            analog_tile = object.__getattribute__(self, 'analog_tile')
        except AttributeError:
            return raw.shape
        if getattr(analog_tile, 'analog_bias', False) and raw.dim() >= 2:
            return raw[:, :analog_tile.in_size].shape
        return raw.shape

    def _logical_data(self):
        raw = self._raw_data()
        try:
            analog_tile = object.__getattribute__(self, 'analog_tile')
        except AttributeError:
            return raw
        logical = raw
        if getattr(analog_tile, 'analog_bias', False) and raw.dim() >= 2:
            logical = raw[:, :analog_tile.in_size]
        get_scales = getattr(analog_tile, 'get_scales', None)
        if get_scales is None:
            return logical
        scales = get_scales()
        if scales is None:
            return logical
        scales = scales.to(device=logical.device, dtype=logical.dtype)
        return logical * scales.view(-1, 1)

    def _placeholder_data(self):
        return PlaceholderDataView(self._raw_data().new_empty(self._logical_shape()))

    def _new_data_buffer(self):
        return self._raw_data().new_zeros(self._logical_shape())

    def _buffer_data(self):
        return object.__getattribute__(self, '_data_buffer')

    def _public_data(self):
        mode = self._get_data_view_mode()
        if mode == AnalogContextDataViewMode.PLACEHOLDER:
            return self._placeholder_data()
        if mode == AnalogContextDataViewMode.DATA_VIEW:
            return ReadOnlyWeightView(self._logical_data())
        if mode == AnalogContextDataViewMode.BUFFER:
            return self._buffer_data()
        raise RuntimeError(f'Unsupported AnalogContext data view mode: {mode}')

    def _torch_function_data(self, func_name: str):
        mode = self._get_data_view_mode()
        if mode == AnalogContextDataViewMode.PLACEHOLDER:
            if func_name not in _PLACEHOLDER_METADATA_FUNCTIONS:
                _raise_placeholder_read_error(func_name)
            return self._placeholder_data()
        if mode == AnalogContextDataViewMode.DATA_VIEW:
            return self._logical_data()
        if mode == AnalogContextDataViewMode.BUFFER:
            return self._buffer_data()
        raise RuntimeError(f'Unsupported AnalogContext data view mode: {mode}')

    def __getattribute__(self, name: str):
        if name == 'grad_fn':
            return None
        if name in ('device', 'dtype', 'is_cuda', 'is_leaf', 'layout'):
            return getattr(self._raw_data(), name)
        if name == 'requires_grad':
            with DisableTorchFunction():
                return self.as_subclass(Tensor).requires_grad
        if name == 'grad':
            with DisableTorchFunction():
                return super().__getattribute__('grad')
        if name == 'data':
            return self._public_data()
        if name == 'shape':
            return self._logical_shape()
        if name == 'ndim':
            return len(self._logical_shape())
        if name in _VALUE_VIEW_PROPERTIES:
            return self._value_view_property(name)
        return super().__getattribute__(name)

    def _value_view_property(self, name: str):
        if self._get_data_view_mode() == AnalogContextDataViewMode.PLACEHOLDER:
            _raise_placeholder_read_error(name)
        return getattr(self._public_data(), name)

    def __setattr__(self, name: str, value: Any):
        if name == 'data':
            raise RuntimeError('Direct replacement of analog_ctx.data is not allowed. Use analog_tile.set_weights(new_weight) for programmatic writes.')
        if name in ('grad', 'requires_grad'):
            with DisableTorchFunction():
                super().__setattr__(name, value)
            return
        super().__setattr__(name, value)

    def _replace_raw_data(self, data: Tensor):
        if isinstance(data, (ReadOnlyWeightView, PlaceholderDataView)):
            data = data.as_subclass(Tensor)
        with DisableTorchFunction():
            super().__setattr__('data', data)
        if self._get_data_view_mode() != AnalogContextDataViewMode.BUFFER:
            return
        buffer = object.__getattribute__(self, '_data_buffer')
        logical_shape = self._logical_shape()
        if buffer is not None and buffer.shape == logical_shape:
            self._data_buffer = buffer.to(device=data.device, dtype=data.dtype)
        else:
            self._data_buffer = self._new_data_buffer()

    def set_indexed(self, value: bool=True):
        self.use_indexed = value

    def get_data(self):
        if self._get_data_view_mode() == AnalogContextDataViewMode.PLACEHOLDER:
            _raise_placeholder_read_error('get_data')
        return self.data.detach()

    def reset(self, analog_tile: Optional['SimulatorTileWrapper']=None):
        if analog_tile is not None:
            self.analog_tile = analog_tile
            self.analog_tile.analog_ctx = self
        self.analog_input = []
        self.analog_grad_output = []

    def has_gradient(self):
        return len(self.analog_input) > 0

    def __copy__(self):
        return Parameter(self._raw_data())

    def __deepcopy__(self, memo: Any):
        return Parameter(self._raw_data())

    def cuda(self, device: Optional[Union[torch_device, str, int]]=None):
        if not self.analog_tile.is_cuda:
            self._replace_raw_data(self.analog_tile._get_tile_weights_ref())
            self.analog_tile = self.analog_tile.cuda(device)
            self.reset(self.analog_tile)
        return self

    def cpu(self):
        self._replace_raw_data(self._raw_data().cpu())
        if self.analog_tile is not None and self.analog_tile.is_cuda:
            self.analog_tile = self.analog_tile.cpu()
            self.reset(self.analog_tile)
        return self

    def to(self, *args: Any, **kwargs: Any):
        self._replace_raw_data(self._raw_data().to(*args, **kwargs))
        device = None
        if 'device' in kwargs:
            device = kwargs['device']
        elif len(args) > 0 and (not isinstance(args[0], (Tensor, dtype))):
            device = torch_device(args[0])
        if device is not None:
            device = torch_device(device)
            if device.type == 'cuda' and (not self.analog_tile.is_cuda):
                self.cuda(device)
            elif device.type == 'cpu' and self.analog_tile.is_cuda:
                self.cpu()
        return self

    @data_view_mode.setter
    def data_view_mode(self, value: Any):
        mode = self._coerce_data_view_mode(value)
        self._data_view_mode = mode
        if mode == AnalogContextDataViewMode.BUFFER:
            self._data_buffer = self._new_data_buffer()
        else:
            self._data_buffer = None



@of("aihwkit.optim.analog_optimizer.AnalogOptimizerMixin")
class AnalogOptimizerMixin:
    def regroup_param_groups(self, *_: Any):
        analog_param_groups = []
        rm_group_lst = []
        for group in self.param_groups:
            rm_lst = []
            for param in group['params']:
                if isinstance(param, AnalogContext):
                    param.analog_tile.set_learning_rate(group['lr'])
                    analog_param_groups.append({**group, 'params': [param]})
                    rm_lst.append(id(param))
            group['params'] = [p for p in group['params'] if id(p) not in rm_lst]
            if len(group['params']) == 0:
                rm_group_lst.append(id(group))
        self.param_groups = [g for g in self.param_groups if id(g) not in rm_group_lst]
        for group in analog_param_groups:
            self.add_param_group(group)

    def step(self, closure: Optional[Callable]=None, **kwargs: Any):
        ret = super().step(closure, **kwargs)
        for group in self.param_groups:
            learning_rate = group.get('lr')
            for param in group['params']:
                if isinstance(param, AnalogContext):
                    analog_ctx = param
                    analog_tile = analog_ctx.analog_tile
                    if analog_ctx.use_torch_update:
                        continue
                    if not analog_ctx.has_gradient():
                        continue
                    if learning_rate == 0.0:
                        analog_ctx.reset()
                        continue
                    if learning_rate is not None:
                        analog_tile.set_learning_rate(learning_rate)
                    runtime = analog_tile.get_runtime()
                    if analog_ctx.use_indexed:
                        for x_input, d_input in zip(analog_ctx.analog_input, analog_ctx.analog_grad_output):
                            analog_tile.update_indexed(x_input.to(analog_tile.device) if runtime.offload_input else x_input, d_input.to(analog_tile.device) if runtime.offload_gradient else d_input)
                    else:
                        x_input = cat(analog_ctx.analog_input, axis=-1 if analog_tile.in_trans else 0)
                        d_input = cat(analog_ctx.analog_grad_output, axis=-1 if analog_tile.out_trans else 0)
                        analog_tile.update(x_input.to(analog_tile.device) if runtime.offload_input else x_input, d_input.to(analog_tile.device) if runtime.offload_gradient else d_input)
                    analog_ctx.reset()
        for group in self.param_groups:
            for param in group['params']:
                if isinstance(param, AnalogContext):
                    param.analog_tile.post_update_step()
        return ret

    def set_learning_rate(self, learning_rate: float=0.1):
        for param_group in self.param_groups:
            param_group['lr'] = learning_rate
            for param in param_group['params']:
                if isinstance(param, AnalogContext):
                    param.analog_tile.set_learning_rate(learning_rate)



@of("aihwkit.optim.analog_optimizer.AnalogOptimizer")
class AnalogOptimizer:
    def __new__(cls, optimizer_cls: Type, *_: Any, **__: Any):
        subclass_name = '{}{}'.format(cls.__name__, optimizer_cls.__name__)
        key = (cls, optimizer_cls)
        if key not in cls.SUBCLASSES:
            cls.SUBCLASSES[key] = new_class(subclass_name, key, {})
        return super().__new__(cls.SUBCLASSES[key])

    def __init__(self, optimizer_cls: Type, *args: Any, **kwargs: Any):
        super().__init__(*args, **kwargs)







@of("aihwkit.optim.weight_view.is_inplace_operation")
def is_inplace_operation(func_name: str):
    return func_name.endswith('_') and (not func_name.endswith('__'))


@of("aihwkit.optim.weight_view.raise_readonly_error")
def raise_readonly_error(func_name: str):
    raise RuntimeError(f"  In-place operation '{func_name}' is not allowed on analog weights.\n  AnalogContext exposes an always-read-only logical weight view.\n  Direct writes would bypass the analog tile update semantics.\n  Please use the appropriate analog tile API to update weights:\n    - For programmatic writes: analog_tile.set_weights(new_weight)\n    - For gradient updates:    analog_tile.update(x_input, d_input)")


@of("aihwkit.optim.weight_view.raise_if_readonly_write_target")
def raise_if_readonly_write_target(func_name: str, args: Any, kwargs: Any, is_readonly: Callable[[Any], bool]):
    if is_inplace_operation(func_name) and args and is_readonly(args[0]):
        raise_readonly_error(func_name)
    if 'out' not in kwargs:
        return

    def block_out_target(value: Any) -> Any:
        if is_readonly(value):
            raise_readonly_error(func_name)
        return value
    tree_map(block_out_target, kwargs['out'])


@of("aihwkit.optim.weight_view._raise_placeholder_read_error")
def _raise_placeholder_read_error(func_name: str):
    operation = func_name or 'unknown'
    raise RuntimeError(f"AnalogContext data is in placeholder mode, so operation '{operation}' cannot read weight values. Call analog_ctx.enable_data_view() for diagnostic logical weight reads, or analog_ctx.enable_buffer() for an independent digital buffer.")


@of("aihwkit.optim.weight_view.ReadOnlyWeightView")
class ReadOnlyWeightView:
    @staticmethod
    def __new__(cls, data: Tensor):
        if isinstance(data, ReadOnlyWeightView):
            return data
        return Tensor._make_subclass(cls, data)

    @classmethod
    def __torch_function__(cls, func: Any, _types: Any, args: Any=(), kwargs: Optional[Any]=None):
        kwargs = kwargs or {}
        func_name = getattr(func, '__name__', '')

        def is_readonly(value: Any) -> bool:
            return isinstance(value, ReadOnlyWeightView)
        raise_if_readonly_write_target(func_name, args, kwargs, is_readonly)

        def unwrap(t: Any) -> Any:
            return t.as_subclass(Tensor) if isinstance(t, ReadOnlyWeightView) else t
        args = tree_map(unwrap, args)
        kwargs = tree_map(unwrap, kwargs)
        return func(*args, **kwargs)

    def __setitem__(self, key: Any, value: Any):
        raise RuntimeError('Direct item assignment on analog weights is not allowed. Use analog_tile.set_weights() instead.')


value("aihwkit.optim.weight_view._PLACEHOLDER_METADATA_FUNCTIONS", {
    "__get__", "__len__", "__reduce__", "__reduce_ex__", "detach", "dim", "element_size", "is_contiguous", "nelement", "numel", "size", "storage_offset", "stride", "type",
    "requires_grad_", "ndimension", "get_device", "data_ptr", "dense_dim", "sparse_dim", "has_names", "is_floating_point", "is_complex", "is_signed", "is_conj", "is_neg",
    "is_pinned", "is_shared", "is_inference", "is_distributed", "_is_view", "_is_zerotensor"})


@of("aihwkit.optim.weight_view.PlaceholderDataView")
class PlaceholderDataView:
    @staticmethod
    def __new__(cls, data: Tensor):
        if isinstance(data, PlaceholderDataView):
            return data
        return Tensor._make_subclass(cls, data.detach())

    @classmethod
    def __torch_function__(cls, func: Any, _types: Any, args: Any=(), kwargs: Optional[Any]=None):
        kwargs = kwargs or {}
        func_name = getattr(func, '__name__', '')

        def is_placeholder(value: Any) -> bool:
            return isinstance(value, PlaceholderDataView)
        if func_name.endswith('_') and (not func_name.endswith('__')):
            if args and is_placeholder(args[0]):
                _raise_placeholder_read_error(func_name)
        if 'out' in kwargs:

            def block_out_target(value: Any) -> Any:
                if is_placeholder(value):
                    _raise_placeholder_read_error(func_name)
                return value
            tree_map(block_out_target, kwargs['out'])
        if func_name not in _PLACEHOLDER_METADATA_FUNCTIONS:
            _raise_placeholder_read_error(func_name)
        if func_name == 'detach':
            source = args[0]
            with DisableTorchFunction():
                return PlaceholderDataView(source.as_subclass(Tensor).detach())

        def unwrap(value: Any) -> Any:
            if isinstance(value, PlaceholderDataView):
                return value.as_subclass(Tensor)
            return value
        args = tree_map(unwrap, args)
        kwargs = tree_map(unwrap, kwargs)
        return func(*args, **kwargs)

    def __setitem__(self, key: Any, value: Any):
        _raise_placeholder_read_error('__setitem__')

"""Reference definitions of the digital low-precision simulation (parsed, never run), confirmed by reading."""


@of("aihwkit.simulator.digital_low_precision.quantizers.RoundStraightThrough")
class RoundStraightThrough:
    @staticmethod
    def forward(ctx, x):
        return torch.round(x)

    @staticmethod
    def backward(ctx, output_grad):
        return output_grad



@of("aihwkit.simulator.digital_low_precision.quantizers.FloorStraightThrough")
class FloorStraightThrough:
    @staticmethod
    def forward(ctx, x):
        return torch.floor(x)

    @staticmethod
    def backward(ctx, output_grad):
        return output_grad



@of("aihwkit.simulator.digital_low_precision.quantizers.QuantizerBase")
class QuantizerBase:
    def __init__(self, n_bits, per_channel=False, axis=None, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.n_bits = n_bits
        self.per_channel = per_channel
        self.axis = axis

    def reset(self):
        self._delta = None



@of("aihwkit.simulator.digital_low_precision.quantizers.AsymmetricUniformQuantizer")
class AsymmetricUniformQuantizer:
    def __init__(self, n_bits, scale_domain='linear', per_channel=False, axis=None, eps=1e-08):
        super().__init__(n_bits, per_channel)
        assert scale_domain in ('linear', 'log')
        self._delta = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)
        self._zero_float = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)
        self.n_bits = n_bits
        self.scale_domain = scale_domain
        self.per_channel = per_channel
        self.axis = axis
        self.eps = eps
        self.view_func = None
        assert not (axis is not None and per_channel), 'Both `axis` and `per_channel` cannot be selected'

    @property
    def delta(self):
        if not torch.isnan(self._delta).all():
            if self.view_func is None:
                return self._delta
            else:
                return self.view_func(self._delta)
        else:
            raise QuantizerNotInitializedError()

    @property
    def zero_float(self):
        if not torch.isnan(self._zero_float).all():
            if self.view_func is None:
                return self._zero_float
            else:
                return self.view_func(self._zero_float)
        else:
            raise QuantizerNotInitializedError()

    @property
    def is_initialized(self):
        return not torch.isnan(self._delta).all()

    @property
    def symmetric(self):
        return False

    @property
    def int_min(self):
        return 0.0

    @property
    def int_max(self):
        return 2.0 ** self.n_bits - 1

    @property
    def scale(self):
        if self.scale_domain == 'linear':
            return torch.clamp(self.delta, min=self.eps)
        elif self.scale_domain == 'log':
            return torch.exp(self.delta)

    @property
    def zero_point(self):
        zero_point = round_ste_func(self.zero_float)
        zero_point = torch.clamp(zero_point, self.int_min, self.int_max)
        return zero_point

    @property
    def x_max(self):
        return self.scale * (self.int_max - self.zero_point)

    @property
    def x_min(self):
        return self.scale * (self.int_min - self.zero_point)

    def _load_from_state_dict(self, state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs):
        delta_key = prefix + '_delta'
        zero_float_key = prefix + '_zero_float'
        if delta_key in state_dict:
            loaded_delta = state_dict[delta_key]
            if loaded_delta.shape != self._delta.shape:
                self._delta.resize_(loaded_delta.shape)
            self._delta.copy_(loaded_delta)
        if zero_float_key in state_dict:
            loaded_zero_float = state_dict[zero_float_key]
            if loaded_zero_float.shape != self._zero_float.shape:
                self._zero_float.resize_(loaded_zero_float.shape)
            self._zero_float.copy_(loaded_zero_float)
        super(AsymmetricUniformQuantizer, self)._load_from_state_dict(state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs)

    def _clamp(self, x_int):
        with torch.no_grad():
            clampled_left = (x_int > self.int_max).float().sum()
            clampled_right = (x_int < self.int_min).float().sum()
            self._clamped = (clampled_left + clampled_right) / x_int.numel()
        x_clamped = torch.clamp(x_int, self.int_min, self.int_max)
        return x_clamped

    def to_integer_forward(self, x_float):
        x_int = round_ste_func(x_float / self.scale) + self.zero_point
        x_int = torch.clamp(x_int, self.int_min, self.int_max)
        return x_int

    def forward(self, x_float):
        if self.axis is not None:
            self._adjust_params_per_axis(x_float)
        if self.per_channel:
            self._adjust_params_per_channel(x_float)
        x_int = self.to_integer_forward(x_float)
        x_quant = self.scale * (x_int - self.zero_point)
        return x_quant

    def _adjust_params_per_axis(self, x_float):
        r = len(x_float.size())
        new_shape = [1] * self.axis + [-1] + [1] * (r - self.axis - 1)
        self.view_func = lambda x: x.view(new_shape)

    def _adjust_params_per_channel(self, x):
        if self.view_func is None and x.ndim != self.delta.ndim:
            new_shape = [-1] + [1] * (len(x.shape) - 1)
            self.view_func = lambda x: x.view(new_shape)

    def _tensorize_min_max(self, x_min, x_max):
        if not torch.is_tensor(x_min):
            x_min = torch.tensor(x_min).float()
            x_max = torch.tensor(x_max).float()
        if x_min.dim() > 0 and len(x_min) > 1 and (not self.per_channel) and (self.axis is None):
            raise ValueError('x_min and x_max must be a float or 1-D Tensor for per-tensor quantization (per_channel=False)')
        x_min = torch.min(x_min, torch.zeros_like(x_min))
        x_max = torch.max(x_max, torch.ones_like(x_max) * self.eps)
        return (x_min, x_max)

    def set_quant_range(self, x_min, x_max):
        x_min, x_max = self._tensorize_min_max(x_min, x_max)
        new_delta_val = (x_max - x_min) / self.int_max
        new_zero_float = (-x_min / new_delta_val).detach()
        if not self.is_initialized:
            self._delta.resize_(new_delta_val.shape)
            self._zero_float.resize_(new_zero_float.shape)
        self._delta.copy_(new_delta_val)
        self._zero_float.copy_(new_zero_float)
        if self.scale_domain == 'log':
            self._delta.copy_(torch.log(new_delta_val))

    def make_range_trainable(self):
        self._delta.requires_grad_(True)
        self._zero_float.requires_grad_(True)

    def reset(self):
        self._delta = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)
        self._zero_float = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)



@of("aihwkit.simulator.digital_low_precision.quantizers.SymmetricUniformQuantizer")
class SymmetricUniformQuantizer:
    def __init__(self, n_bits, scale_domain='linear', per_channel=False, axis=None, eps=1e-08):
        super().__init__(n_bits, per_channel)
        assert scale_domain in ('linear', 'log')
        self._delta = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)
        self.register_buffer('_signed', None, persistent=True)
        self.n_bits = n_bits
        self.scale_domain = scale_domain
        self.per_channel = per_channel
        self.axis = axis
        self.eps = eps
        self.view_func = None
        assert not (axis is not None and per_channel), 'Both `axis` and `per_channel` cannot be selected'

    @property
    def delta(self):
        if not torch.isnan(self._delta).all():
            if self.view_func is None:
                return self._delta
            else:
                return self.view_func(self._delta)
        else:
            raise QuantizerNotInitializedError()

    @property
    def signed(self):
        if self._signed is not None:
            return self._signed.item()
        else:
            raise QuantizerNotInitializedError()

    @property
    def is_initialized(self):
        return not torch.isnan(self._delta).all()

    @property
    def symmetric(self):
        return True

    @property
    def int_min(self):
        return -2.0 ** (self.n_bits - 1) if self.signed else 0

    @property
    def int_max(self):
        pos_n_bits = self.n_bits - self.signed
        return 2.0 ** pos_n_bits - 1

    @property
    def scale(self):
        if self.scale_domain == 'linear':
            return torch.clamp(self.delta, min=self.eps)
        elif self.scale_domain == 'log':
            return torch.exp(self.delta)

    @property
    def zero_point(self):
        return 0.0

    @property
    def x_max(self):
        return self.scale * (self.int_max - self.zero_point)

    @property
    def x_min(self):
        return self.scale * (self.int_min - self.zero_point)

    def _load_from_state_dict(self, state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs):
        signed_key = prefix + '_signed'
        delta_key = prefix + '_delta'
        if delta_key in state_dict:
            loaded_delta = state_dict[delta_key]
            if loaded_delta.shape != self._delta.shape:
                self._delta.resize_(loaded_delta.shape)
            self._delta.copy_(loaded_delta)
        if signed_key in state_dict:
            self._signed = state_dict[signed_key]
        super(SymmetricUniformQuantizer, self)._load_from_state_dict(state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs)

    def _clamp(self, x_int):
        with torch.no_grad():
            clampled_left = (x_int > self.int_max).float().sum()
            clampled_right = (x_int < self.int_min).float().sum()
            self._clamped = (clampled_left + clampled_right) / x_int.numel()
        x_clamped = torch.clamp(x_int, self.int_min, self.int_max)
        return x_clamped

    def to_integer_forward(self, x_float):
        x_int = round_ste_func(x_float / self.scale) + self.zero_point
        x_int = torch.clamp(x_int, self.int_min, self.int_max)
        return x_int

    def forward(self, x_float):
        if self.axis is not None:
            self._adjust_params_per_axis(x_float)
        if self.per_channel:
            self._adjust_params_per_channel(x_float)
        assert self._signed is not None
        x_int = self.to_integer_forward(x_float)
        x_quant = self.scale * (x_int - self.zero_point)
        return x_quant

    def _adjust_params_per_axis(self, x_float):
        r = len(x_float.size())
        new_shape = [1] * self.axis + [-1] + [1] * (r - self.axis - 1)
        self.view_func = lambda x: x.view(new_shape)

    def _adjust_params_per_channel(self, x):
        if self.view_func is None and x.ndim != self.delta.ndim:
            new_shape = [-1] + [1] * (len(x.shape) - 1)
            self.view_func = lambda x: x.view(new_shape)

    def _tensorize_min_max(self, x_min, x_max):
        if not torch.is_tensor(x_min):
            x_min = torch.tensor(x_min).float()
            x_max = torch.tensor(x_max).float()
        if x_min.dim() > 0 and len(x_min) > 1 and (not self.per_channel) and (self.axis is None):
            raise ValueError('x_min and x_max must be a float or 1-D Tensor for per-tensor quantization (per_channel=False)')
        x_min = torch.min(x_min, torch.zeros_like(x_min))
        x_max = torch.max(x_max, torch.ones_like(x_max) * self.eps)
        return (x_min, x_max)

    def set_quant_range(self, x_min, x_max):
        x_min, x_max = self._tensorize_min_max(x_min, x_max)
        self._signed = x_min.min() < 0
        x_absmax = torch.max(x_min.abs(), x_max)
        new_delta_val = x_absmax / self.int_max
        if not self.is_initialized:
            self._delta.resize_(new_delta_val.shape)
        self._delta.copy_(new_delta_val)
        if self.scale_domain == 'log':
            self._delta.copy_(torch.log(new_delta_val))

    def make_range_trainable(self):
        self._delta.requires_grad_(True)

    def reset(self):
        self._delta = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)
        self._signed = None



@of("aihwkit.simulator.digital_low_precision.range_estimators.RangeEstimatorBase")
class RangeEstimatorBase:
    def __init__(self, per_channel=False, quantizer=None, axis=None, n_groups=None, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.register_buffer('current_xmin', None)
        self.register_buffer('current_xmax', None)
        self.per_channel = per_channel
        self.quantizer = quantizer
        self.axis = axis
        self.n_groups = n_groups
        self.per_group_range_estimation = False
        self.ranges = None

    def reset(self):
        self.current_xmin = None
        self.current_xmax = None

    def _load_from_state_dict(self, state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs):
        xmin_key = prefix + 'current_xmin'
        xmax_key = prefix + 'current_xmax'
        if xmin_key in state_dict:
            if self.current_xmin is None or state_dict[xmin_key].shape != self.current_xmin.shape:
                self.current_xmin = state_dict[xmin_key]
        if xmax_key in state_dict:
            if self.current_xmax is None or state_dict[xmax_key].shape != self.current_xmax.shape:
                self.current_xmax = state_dict[xmax_key]
        super(RangeEstimatorBase, self)._load_from_state_dict(state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs)



@of("aihwkit.simulator.digital_low_precision.range_estimators.CurrentMinMaxEstimator")
class CurrentMinMaxEstimator:
    def __init__(self, percentile=None, *args, **kwargs):
        self.percentile = percentile
        super().__init__(*args, **kwargs)

    def forward(self, x):
        if self.per_group_range_estimation:
            assert self.axis != 0
            x = x.transpose(0, self.axis).contiguous()
            x = x.view(x.size(0), -1)
            ranges = x.max(-1)[0].detach() - x.min(-1)[0].detach()
            if self.ranges is None:
                self.ranges = ranges
            else:
                momentum = 0.1
                self.ranges = momentum * ranges + (1 - momentum) * ranges
            return
        if self.axis is not None:
            if self.axis != 0:
                x = x.transpose(0, self.axis).contiguous()
            x = x.view(x.size(0), -1)
            if self.n_groups is not None:
                ng = self.n_groups
                assert ng > 0 and x.size(0) % ng == 0
                gs = x.size(0) // ng
                if self.ranges is not None:
                    i = torch.argsort(self.ranges)
                    Iarr = torch.eye(len(i), device=self.ranges.device)
                    P = Iarr[i]
                    x = P.mm(x)
                x = x.view(ng, -1)
                m = x.min(-1)[0].detach()
                M = x.max(-1)[0].detach()
                m = m.repeat_interleave(gs)
                M = M.repeat_interleave(gs)
                if self.ranges is not None:
                    m = P.T.mv(m)
                    M = P.T.mv(M)
                self.current_xmin = m
                self.current_xmax = M
            else:
                self.current_xmin = x.min(-1)[0].detach()
                self.current_xmax = x.max(-1)[0].detach()
        elif self.per_channel:
            x_flattened = x.view(x.shape[0], -1)
            if self.percentile:
                data_np = to_numpy(x_flattened)
                x_min, x_max = np.percentile(data_np, (self.percentile, 100 - self.percentile), axis=-1)
                self.current_xmin = torch.Tensor(x_min)
                self.current_xmax = torch.Tensor(x_max)
            else:
                self.current_xmin = x_flattened.min(-1)[0].detach()
                self.current_xmax = x_flattened.max(-1)[0].detach()
        elif self.percentile:
            device = x.device
            data_np = to_numpy(x)
            x_min, x_max = np.percentile(data_np, (self.percentile, 100))
            x_min = np.atleast_1d(x_min)
            x_max = np.atleast_1d(x_max)
            self.current_xmin = torch.Tensor(x_min).to(device).detach()
            self.current_xmax = torch.Tensor(x_max).to(device).detach()
        else:
            self.current_xmin = torch.min(x).detach()
            self.current_xmax = torch.max(x).detach()
        return (self.current_xmin, self.current_xmax)



@of("aihwkit.simulator.digital_low_precision.range_estimators.AllMinMaxEstimator")
class AllMinMaxEstimator:
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)

    def forward(self, x):
        if self.per_channel:
            x_flattened = x.view(x.shape[0], -1)
            x_min = x_flattened.min(-1)[0].detach()
            x_max = x_flattened.max(-1)[0].detach()
        else:
            x_min = torch.min(x).detach()
            x_max = torch.max(x).detach()
        if self.current_xmin is None:
            self.current_xmin = x_min
            self.current_xmax = x_max
        else:
            self.current_xmin = torch.min(self.current_xmin, x_min)
            self.current_xmax = torch.max(self.current_xmax, x_max)
        return (self.current_xmin, self.current_xmax)



@of("aihwkit.simulator.digital_low_precision.range_estimators.RunningMinMaxEstimator")
class RunningMinMaxEstimator:
    def __init__(self, momentum=0.9, *args, **kwargs):
        self.momentum = momentum
        super().__init__(*args, **kwargs)

    def forward(self, x):
        if self.axis is not None:
            if self.axis != 0:
                x = x.transpose(0, self.axis).contiguous()
            x = x.view(x.size(0), -1)
            if self.n_groups is not None:
                ng = self.n_groups
                assert ng > 0 and x.size(0) % ng == 0
                gs = x.size(0) // ng
                x = x.view(ng, -1)
                m = x.min(-1)[0].detach()
                M = x.max(-1)[0].detach()
                x_min = m.repeat_interleave(gs)
                x_max = M.repeat_interleave(gs)
            else:
                x_min = x.min(-1)[0].detach()
                x_max = x.max(-1)[0].detach()
        elif self.per_channel:
            x_flattened = x.view(x.shape[0], -1)
            x_min = x_flattened.min(-1)[0].detach()
            x_max = x_flattened.max(-1)[0].detach()
        else:
            x_min = torch.min(x).detach()
            x_max = torch.max(x).detach()
        if self.current_xmin is None:
            self.current_xmin = x_min
            self.current_xmax = x_max
        else:
            self.current_xmin = (1 - self.momentum) * x_min + self.momentum * self.current_xmin
            self.current_xmax = (1 - self.momentum) * x_max + self.momentum * self.current_xmax
        return (self.current_xmin, self.current_xmax)



@of("aihwkit.simulator.digital_low_precision.range_estimators.MSE_Estimator")
class MSE_Estimator:
    def __init__(self, num_candidates=100, opt_method=OptMethod.grid, range_margin=0.5, *args, **kwargs):
        super().__init__(*args, **kwargs)
        assert opt_method in OptMethod
        self.opt_method = opt_method
        self.num_candidates = num_candidates
        self.loss_array = None
        self.max_pos_thr = None
        self.max_neg_thr = None
        self.max_search_range = None
        self.one_sided_dist = None
        self.range_margin = range_margin
        if self.quantizer is None:
            raise NotImplementedError('A Quantizer must be given as an argument to the MSE RangeEstimator')
        self.max_int_skew = 2 ** self.quantizer.n_bits // 4

    def loss_fx(self, data, neg_thr, pos_thr, per_channel_loss=False):
        y = self.quantize(data, x_min=neg_thr, x_max=pos_thr)
        temp_sum = torch.sum(((data - y) ** 2).view(len(data), -1), dim=1)
        if per_channel_loss:
            return to_numpy(temp_sum)
        else:
            return to_numpy(torch.sum(temp_sum))

    @property
    def step_size(self):
        if self.one_sided_dist is None:
            raise NoDataPassedError()
        return self.max_search_range / self.num_candidates

    @property
    def optimization_method(self):
        if self.one_sided_dist is None:
            raise NoDataPassedError()
        if self.opt_method == OptMethod.grid:
            if self.one_sided_dist or self.quantizer.symmetric:
                return self._perform_1D_search
            else:
                return self._perform_2D_search
        elif self.opt_method == OptMethod.golden_section:
            if self.one_sided_dist or self.quantizer.symmetric:
                return self._golden_section_symmetric
            else:
                return self._golden_section_asymmetric
        else:
            raise NotImplementedError('Optimization Method not Implemented')

    def quantize(self, x_float, x_min=None, x_max=None):
        temp_q = copy.deepcopy(self.quantizer)
        temp_q.per_channel = False
        if x_min or x_max:
            temp_q.set_quant_range(x_min, x_max)
        return temp_q(x_float)

    def golden_sym_loss(self, range, data):
        neg_thr = 0 if self.one_sided_dist else -range
        pos_thr = range
        return self.loss_fx(data, neg_thr, pos_thr)

    def golden_asym_shift_loss(self, shift, range, data):
        pos_thr = range + shift
        neg_thr = -range + shift
        return self.loss_fx(data, neg_thr, pos_thr)

    def golden_asym_range_loss(self, range, data):
        temp_delta = 2 * range / (2 ** self.quantizer.n_bits - 1)
        max_shift = temp_delta * self.max_int_skew
        result = minimize_scalar(self.golden_asym_shift_loss, args=(range, data), bounds=(-max_shift, max_shift), method='Bounded')
        return result.fun

    def _define_search_range(self, data):
        self.channel_groups = len(data) if self.per_channel else 1
        self.current_xmax = torch.zeros(self.channel_groups, device=data.device)
        self.current_xmin = torch.zeros(self.channel_groups, device=data.device)
        if self.one_sided_dist or self.quantizer.symmetric:
            self.loss_array = np.zeros((self.channel_groups, self.num_candidates + 1))
            self.loss_array[:, 0] = np.inf
            self.max_pos_thr = max(abs(float(data.min())), float(data.max())) + self.range_margin
            self.max_neg_thr = -self.max_pos_thr
            self.max_search_range = self.max_pos_thr
        else:
            self.loss_array = np.zeros([self.channel_groups, self.num_candidates + 1, self.max_int_skew, 2])
            self.loss_array[:, 0, :, :] = np.inf
            self.max_pos_thr = float(data.max()) + self.range_margin
            self.max_neg_thr = float(data.min()) - self.range_margin
            self.max_search_range = max(abs(self.max_pos_thr), abs(self.max_neg_thr))

    def _perform_1D_search(self, data):
        for cand_index in range(1, self.num_candidates + 1):
            neg_thr = 0 if self.one_sided_dist else -self.step_size * cand_index
            pos_thr = self.step_size * cand_index
            self.loss_array[:, cand_index] += self.loss_fx(data, neg_thr, pos_thr, per_channel_loss=self.per_channel)
        min_cand = self.loss_array.argmin(axis=1)
        xmin = (np.zeros(self.channel_groups) if self.one_sided_dist else -self.step_size * min_cand).astype(np.single)
        xmax = (self.step_size * min_cand).astype(np.single)
        self.current_xmax = torch.tensor(xmax).to(device=data.device)
        self.current_xmin = torch.tensor(xmin).to(device=data.device)

    def _perform_2D_search(self, data):
        for cand_index in range(1, self.num_candidates + 1):
            temp_start = -self.step_size * cand_index
            temp_finish = self.step_size * cand_index
            temp_delta = float(temp_finish - temp_start) / (2 ** self.quantizer.n_bits - 1)
            for shift in range(self.max_int_skew):
                for reverse in range(2):
                    skew = (-1) ** reverse * shift * temp_delta
                    neg_thr = max(temp_start + skew, self.max_neg_thr)
                    pos_thr = min(temp_finish + skew, self.max_pos_thr)
                    self.loss_array[:, cand_index, shift, reverse] += self.loss_fx(data, neg_thr, pos_thr, per_channel_loss=self.per_channel)
        for channel_index in range(self.channel_groups):
            min_cand, min_shift, min_reverse = np.unravel_index(np.argmin(self.loss_array[channel_index], axis=None), self.loss_array[channel_index].shape)
            min_interval_start = -self.step_size * min_cand
            min_interval_finish = self.step_size * min_cand
            min_delta = float(min_interval_finish - min_interval_start) / (2 ** self.quantizer.n_bits - 1)
            min_skew = (-1) ** min_reverse * min_shift * min_delta
            xmin = max(min_interval_start + min_skew, self.max_neg_thr)
            xmax = min(min_interval_finish + min_skew, self.max_pos_thr)
            self.current_xmin[channel_index] = torch.tensor(xmin).to(device=data.device)
            self.current_xmax[channel_index] = torch.tensor(xmax).to(device=data.device)

    def _golden_section_symmetric(self, data):
        for channel_index in range(self.channel_groups):
            if channel_index == 0 and (not self.per_channel):
                data_segment = data
            else:
                data_segment = data[channel_index]
            self.result = minimize_scalar(self.golden_sym_loss, args=data_segment, bounds=(0.01 * self.max_search_range, self.max_search_range), method='Bounded')
            self.current_xmax[channel_index] = torch.tensor(self.result.x).to(device=data.device)
            self.current_xmin[channel_index] = torch.tensor(0.0).to(device=data.device) if self.one_sided_dist else -self.current_xmax[channel_index]

    def _golden_section_asymmetric(self, data):
        for channel_index in range(self.channel_groups):
            if channel_index == 0 and (not self.per_channel):
                data_segment = data
            else:
                data_segment = data[channel_index]
            self.result = minimize_scalar(self.golden_asym_range_loss, args=data_segment, bounds=(0.01 * self.max_search_range, self.max_search_range), method='Bounded')
            self.final_range = self.result.x
            temp_delta = 2 * self.final_range / (2 ** self.quantizer.n_bits - 1)
            max_shift = temp_delta * self.max_int_skew
            self.subresult = minimize_scalar(self.golden_asym_shift_loss, args=(self.final_range, data_segment), bounds=(-max_shift, max_shift), method='Bounded')
            self.final_shift = self.subresult.x
            self.current_xmax[channel_index] = torch.tensor(self.final_range + self.final_shift).to(device=data.device)
            self.current_xmin[channel_index] = torch.tensor(-self.final_range + self.final_shift).to(device=data.device)

    def forward(self, data):
        if self.loss_array is None:
            if self.one_sided_dist is None:
                self.one_sided_dist = bool((data.min() >= 0).item())
            self._define_search_range(data)
        self.optimization_method(data)
        return (self.current_xmin, self.current_xmax)

    def reset(self):
        super().reset()
        self.one_sided_dist = None
        self.loss_array = None



@of("aihwkit.simulator.digital_low_precision.range_estimators.CrossEntropyEstimator")
class CrossEntropyEstimator:
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)

    def loss_fx(self, data, neg_thr, pos_thr, per_channel_loss=False):
        quantized_data = self.quantize(data, neg_thr, pos_thr)
        log_quantized_probs = F.log_softmax(quantized_data, dim=1)
        unquantized_probs = F.softmax(data, dim=1)
        return to_numpy(torch.sum(-unquantized_probs * log_quantized_probs))



@of("aihwkit.simulator.digital_low_precision.quantization_manager.QuantizationManager")
class QuantizationManager:
    def __init__(self, qmethod=QMethods.symmetric_uniform, init=RangeEstimators.current_minmax, per_channel=False, axis=None, n_groups=None, x_min=None, x_max=None, qparams=None, init_params=None):
        super().__init__()
        self.state = Qstates.estimate_ranges_train
        self.qmethod = qmethod
        self.init = init
        self.per_channel = per_channel
        self.axis = axis
        self.n_groups = n_groups
        self.qparams = qparams if qparams else {}
        self.init_params = init_params if init_params else {}
        self.range_estimator = None
        self.quantizer: QuantizerBase = self.qmethod.cls(per_channel=per_channel, axis=axis, **self.qparams)
        if x_min is not None and x_max is not None:
            self.set_quant_range(x_min, x_max)
            self.state = Qstates.fix_ranges
        else:
            self.range_estimator = self.init.cls(per_channel=self.per_channel, quantizer=self.quantizer if self.init.value.value > 2 else None, axis=self.axis, n_groups=self.n_groups, **self.init_params)

    @property
    def n_bits(self):
        return self.quantizer.n_bits

    def estimate_ranges(self):
        self.state = Qstates.estimate_ranges

    def fix_ranges(self):
        if self.quantizer.is_initialized:
            self.state = Qstates.fix_ranges
        else:
            raise QuantizerNotInitializedError()

    def learn_ranges(self):
        self.quantizer.make_range_trainable()
        self.state = Qstates.learn_ranges

    def estimate_ranges_train(self):
        self.state = Qstates.estimate_ranges_train

    def is_learning(self):
        return self.state == Qstates.learn_ranges

    def reset_ranges(self):
        self.range_estimator.reset()
        self.quantizer.reset()
        self.estimate_ranges_train()

    def forward(self, x):
        if self.range_estimator.per_group_range_estimation:
            self.range_estimator(x)
            return x
        if self.state == Qstates.estimate_ranges or (self.state == Qstates.estimate_ranges_train and self.training):
            cur_xmin, cur_xmax = self.range_estimator(x)
            self.set_quant_range(cur_xmin, cur_xmax)
        return self.quantizer(x)

    def set_quant_range(self, x_min, x_max):
        self.quantizer.set_quant_range(x_min, x_max)



@of("aihwkit.simulator.digital_low_precision.hijacker.QuantizationHijacker")
class QuantizationHijacker:
    def __init__(self, *args, activation: nn.Module=None, **kwargs):
        super().__init__(*args, **kwargs)
        if activation:
            assert isinstance(activation, tuple(activations_list))
        self.activation_function = deepcopy(activation) if activation else None
        weight_qparams = dict(n_bits=self.n_bits, scale_domain=self.scale_domain)
        act_qparams = dict(n_bits=self.n_bits_act, scale_domain=self.scale_domain)
        self.activation_quantizer = QuantizationManager(qmethod=self.act_method, init=self.act_range_method, per_channel=self.per_channel_acts, qparams=act_qparams, init_params=self.act_range_options)
        if self.weight_range_method == RangeEstimators.current_minmax:
            weight_init_params = dict(percentile=self.percentile)
        else:
            weight_init_params = self.weight_range_options
        self.weight_quantizer = QuantizationManager(qmethod=self.method, init=self.weight_range_method, per_channel=self.per_channel_weights, qparams=weight_qparams, init_params=weight_init_params)
        self.activation_save_target = None
        self.activation_save_name = None

    def forward(self, x, offsets=None):
        weight, bias = self.get_params()
        res = self.run_forward(x, weight, bias, offsets=offsets)
        res = self.quantize_activations(res)
        return res

    def get_params(self):
        if not self.training and self.cached_params:
            return self.cached_params
        weight, bias = self.get_weight_bias()
        if self._quant_w:
            weight = self.weight_quantizer(weight)
        if self._caching and (not self.training) and (self.cached_params is None):
            self.cached_params = (weight.detach().clone(), bias.detach().clone() if bias is not None else None)
        return (weight, bias)

    def get_weight_bias(self):
        bias = None
        if hasattr(self, 'bias'):
            bias = self.bias
        return (self.weight, bias)

    def quantize_activations(self, activations):
        if self.activation_function is not None:
            activations = self.activation_function(activations)
        if self.activation_save_target is not None:
            self.activation_save_target[self.activation_save_name] = activations.data.cpu().numpy()
        if self._quant_a:
            activations = self.activation_quantizer(activations)
            if self.activation_save_target is not None:
                self.activation_save_target[self.activation_save_name + '_Q'] = activations.data.cpu().numpy()
        return activations



@of("aihwkit.simulator.digital_low_precision.base_quantized_classes.QuantizedModule")
class QuantizedModule:
    def __init__(self, *args, method=QMethods.asymmetric_uniform, act_method=None, n_bits=8, n_bits_act=None, per_channel_weights=False, per_channel_acts=False, percentile=None, weight_range_method=RangeEstimators.current_minmax, weight_range_options=None, act_range_method=RangeEstimators.running_minmax, act_range_options=None, scale_domain='linear', **kwargs):
        kwargs.pop('quant_dict', None)
        kwargs.pop('module_map', None)
        kwargs.pop('quantization_map', None)
        super().__init__(*args, **kwargs)
        self.method = method
        self.act_method = act_method or method
        self.n_bits = n_bits
        self.n_bits_act = n_bits_act if n_bits_act is not None else n_bits
        self.per_channel_weights = per_channel_weights
        self.per_channel_acts = per_channel_acts
        self.percentile = percentile
        self.weight_range_method = weight_range_method
        self.weight_range_options = weight_range_options if weight_range_options else {}
        self.act_range_method = act_range_method
        self.act_range_options = act_range_options if act_range_options else {}
        self.scale_domain = scale_domain
        self.cached_params = None
        self._caching = True
        self.quant_params = None
        self._quant_w = False
        self._quant_a = False

    @property
    def caching(self):
        return self._caching

    def quantized_weights(self):
        self.cached_params = None
        self._quant_w = True

    def full_precision_weights(self):
        self.cached_params = None
        self._quant_w = False

    def quantized_acts(self):
        self._quant_a = True

    def full_precision_acts(self):
        self._quant_a = False

    def quantized(self):
        self.quantized_weights()
        self.quantized_acts()

    def full_precision(self):
        self.full_precision_weights()
        self.full_precision_acts()

    def learn_ranges(self):
        self.apply(_set_layer_learn_ranges)

    def fix_ranges(self):
        self.apply(_set_layer_fix_ranges)

    def estimate_ranges(self):
        self.apply(_set_layer_estimate_ranges)

    def estimate_ranges_train(self):
        self.apply(_set_layer_estimate_ranges_train)

    def train(self, mode=True):
        super().train(mode)
        if mode:
            self.cached_params = None
        return self

    def _apply(self, *args, **kwargs):
        self.cached_params = None
        return super(QuantizedModule, self)._apply(*args, **kwargs)

    def _load_from_state_dict(self, *args, **kwargs):
        self.cached_params = None
        return super()._load_from_state_dict(*args, **kwargs)

    @caching.setter
    def caching(self, value: bool):
        self._caching = value
        if not value:
            self.cached_params = None



@of("aihwkit.simulator.digital_low_precision.base_quantized_classes.QuantizedActivation")
class QuantizedActivation:
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        act_qparams = dict(n_bits=self.n_bits_act, scale_domain=self.scale_domain)
        self.activation_quantizer = QuantizationManager(qmethod=self.act_method, qparams=act_qparams, init=self.act_range_method, init_params=self.act_range_options)

    def quantize_activations(self, x):
        if self._quant_a:
            return self.activation_quantizer(x)
        else:
            return x

    def forward(self, x):
        return self.quantize_activations(x)



@of("aihwkit.simulator.digital_low_precision.base_quantized_classes.FP32Acts")
class FP32Acts:
    def forward(self, x):
        return x

    def reset_ranges(self):
        pass



@of("aihwkit.simulator.digital_low_precision.base_quantized_model.QuantizedModel")
class QuantizedModel:
    def quantized_weights(self):
    
        def _fn(layer):
            if isinstance(layer, QuantizedModule):
                layer.quantized_weights()
        self.apply(_fn)

    def full_precision_weights(self):
    
        def _fn(layer):
            if isinstance(layer, QuantizedModule):
                layer.full_precision_weights()
        self.apply(_fn)

    def quantized_acts(self):
    
        def _fn(layer):
            if isinstance(layer, QuantizedModule):
                layer.quantized_acts()
        self.apply(_fn)

    def full_precision_acts(self):
    
        def _fn(layer):
            if isinstance(layer, QuantizedModule):
                layer.full_precision_acts()
        self.apply(_fn)

    def quantized(self):
    
        def _fn(layer):
            if isinstance(layer, QuantizedModule):
                layer.quantized()
        self.apply(_fn)

    def full_precision(self):
    
        def _fn(layer):
            if isinstance(layer, QuantizedModule):
                layer.full_precision()
        self.apply(_fn)

    def learn_ranges(self):
        self.apply(_set_layer_learn_ranges)

    def fix_ranges(self):
        self.apply(_set_layer_fix_ranges)

    def fix_act_ranges(self):
    
        def _fn(module):
            if isinstance(module, QuantizedModule) and hasattr(module, 'activation_quantizer'):
                _set_layer_fix_ranges(module.activation_quantizer)
        self.apply(_fn)

    def fix_weight_ranges(self):
    
        def _fn(module):
            if isinstance(module, QuantizedModule) and hasattr(module, 'weight_quantizer'):
                _set_layer_fix_ranges(module.weight_quantizer)
        self.apply(_fn)

    def estimate_ranges(self):
        self.apply(_set_layer_estimate_ranges)

    def estimate_act_ranges(self):
    
        def _fn(module):
            if isinstance(module, QuantizedModule) and hasattr(module, 'activation_quantizer'):
                _set_layer_estimate_ranges(module.activation_quantizer)
        self.apply(_fn)

    def estimate_ranges_train(self):
        self.apply(_set_layer_estimate_ranges_train)

    def reset_act_ranges(self):
    
        def _fn(module):
            if isinstance(module, QuantizedModule) and hasattr(module, 'activation_quantizer'):
                module.activation_quantizer.reset_ranges()
        self.apply(_fn)

    def set_quant_state(self, weight_quant, act_quant):
        if act_quant:
            self.quantized_acts()
        else:
            self.full_precision_acts()
        if weight_quant:
            self.quantized_weights()
        else:
            self.full_precision_weights()



@of("aihwkit.simulator.digital_low_precision.base_quantized_classes._set_layer_learn_ranges")
def _set_layer_learn_ranges(layer):
    if isinstance(layer, QuantizationManager):
        if layer.quantizer.is_initialized:
            layer.learn_ranges()


@of("aihwkit.simulator.digital_low_precision.base_quantized_classes._set_layer_fix_ranges")
def _set_layer_fix_ranges(layer):
    if isinstance(layer, QuantizationManager):
        if layer.quantizer.is_initialized:
            layer.fix_ranges()


@of("aihwkit.simulator.digital_low_precision.base_quantized_classes._set_layer_estimate_ranges")
def _set_layer_estimate_ranges(layer):
    if isinstance(layer, QuantizationManager):
        layer.estimate_ranges()


@of("aihwkit.simulator.digital_low_precision.base_quantized_classes._set_layer_estimate_ranges_train")
def _set_layer_estimate_ranges_train(layer):
    if isinstance(layer, QuantizationManager):
        layer.estimate_ranges_train()


@of("aihwkit.simulator.digital_low_precision.config_utils.convert_configs_to_kwargs_dict")
def convert_configs_to_kwargs_dict(quant_config: 'QuantizationConfig'):
    return {**convert_weight_config_to_kwargs_dict(quant_config.weight_quant), **convert_act_config_to_kwargs_dict(quant_config.activation_quant)}


@of("aihwkit.simulator.digital_low_precision.config_utils.convert_weight_config_to_kwargs_dict")
def convert_weight_config_to_kwargs_dict(weight_quant_config: 'WeightQuantConfig'):
    weight_range_options = {}
    range_estim_params = weight_quant_config.range_estimator_params
    if weight_quant_config.range_estimator == RangeEstimators.running_minmax:
        weight_range_options['momentum'] = range_estim_params.momentum
    elif weight_quant_config.range_estimator in [RangeEstimators.MSE, RangeEstimators.cross_entropy]:
        weight_range_options['opt_method'] = range_estim_params.range_opt_method
        weight_range_options['num_candidates'] = range_estim_params.num_candidates
        weight_range_options['range_margin'] = range_estim_params.range_margin
    return {'method': QMethods['symmetric_uniform' if weight_quant_config.symmetric else 'asymmetric_uniform'], 'n_bits': weight_quant_config.n_bits, 'per_channel_weights': weight_quant_config.per_channel, 'percentile': range_estim_params.percentile if weight_quant_config.range_estimator == RangeEstimators.current_minmax else None, 'weight_range_method': weight_quant_config.range_estimator, 'weight_range_options': weight_range_options}


@of("aihwkit.simulator.digital_low_precision.config_utils.convert_act_config_to_kwargs_dict")
def convert_act_config_to_kwargs_dict(act_quant_config: 'ActivationQuantConfig'):
    act_range_options = {}
    range_estim_params = act_quant_config.range_estimator_params
    if act_quant_config.range_estimator == RangeEstimators.current_minmax:
        act_range_options['percentile'] = range_estim_params.percentile
    elif act_quant_config.range_estimator == RangeEstimators.running_minmax:
        act_range_options['momentum'] = range_estim_params.momentum
    elif act_quant_config.range_estimator in [RangeEstimators.MSE, RangeEstimators.cross_entropy]:
        act_range_options['opt_method'] = range_estim_params.range_opt_method
        act_range_options['num_candidates'] = range_estim_params.num_candidates
        act_range_options['range_margin'] = range_estim_params.range_margin
    return {'act_method': QMethods['symmetric_uniform' if act_quant_config.symmetric else 'asymmetric_uniform'], 'n_bits_act': act_quant_config.n_bits, 'act_range_method': act_quant_config.range_estimator, 'act_range_options': act_range_options}


@of("aihwkit.simulator.digital_low_precision.utils.to_numpy")
def to_numpy(tensor: Tensor):
    if isinstance(tensor, np.ndarray):
        return tensor
    if hasattr(tensor, 'is_cuda'):
        if tensor.is_cuda:
            return tensor.cpu().detach().numpy()
    if hasattr(tensor, 'detach'):
        return tensor.detach().numpy()
    if hasattr(tensor, 'numpy'):
        return tensor.numpy()
    return np.array(tensor)


@of("aihwkit.nn.low_precision_modules.conversion_utils.append_default_conversions")
def append_default_conversions(quantization_map: QuantizationMap):
    for module, q_module in DEFAULT_CONVERSIONS.items():
        if module in quantization_map.module_qconfig_map:
            continue
        quantization_map.module_qconfig_map[module] = QuantizedModuleConfig(quantized_module=q_module, module_qconfig=deepcopy(quantization_map.default_qconfig))


@of("aihwkit.nn.low_precision_modules.conversion_utils.get_module_args")
def get_module_args(module: Module, activation: Optional[Module]=None):

    def get_linear_args(module: Module) -> Dict[str, Any]:
        args = dict(in_features=module.in_features, out_features=module.out_features, bias=module.bias is not None)
        return args

    def get_layernorm_args(module: Module) -> Dict[str, Any]:
        args = dict(normalized_shape=module.normalized_shape, eps=module.eps)
        return args

    def get_embedding_args(module: Module) -> Dict[str, Any]:
        args = dict(num_embeddings=module.num_embeddings, embedding_dim=module.embedding_dim, padding_idx=module.padding_idx, max_norm=module.max_norm, norm_type=module.norm_type, scale_grad_by_freq=module.scale_grad_by_freq, sparse=module.sparse)
        return args

    def get_conv2d_args(module: Module) -> Dict[str, Any]:
        args = dict(in_channels=module.in_channels, out_channels=module.out_channels, kernel_size=module.kernel_size, stride=module.stride, padding=module.padding, dilation=module.dilation, groups=module.groups, bias=module.bias is not None, padding_mode=module.padding_mode)
        return args
    if isinstance(module, Linear):
        kwargs = get_linear_args(module)
    elif isinstance(module, LayerNorm):
        kwargs = get_layernorm_args(module)
    elif isinstance(module, Embedding):
        kwargs = get_embedding_args(module)
    elif isinstance(module, Conv2d):
        kwargs = get_conv2d_args(module)
    else:
        raise ValueError
    kwargs['activation'] = activation
    return kwargs


@of("aihwkit.nn.low_precision_conversion.convert_to_quantized")
def convert_to_quantized(model: Module, quantization_map: QuantizationMap):
    quant_model = deepcopy(model)
    quant_model = quantize_model(quant_model, quantization_map)
    enable_quant_states(quant_model)
    return quant_model


@of("aihwkit.nn.low_precision_conversion.quantize_model")
def quantize_model(model: Module, quantization_map: QuantizationMap, model_name: str=''):
    if model_name in quantization_map.excluded_modules:
        return None
    if isinstance(model, LEAF_MODULES):
        return None
    if model_name in quantization_map.instance_qconfig_map or type(model) in quantization_map.module_qconfig_map:
        qmodule_config = quantization_map.instance_qconfig_map[model_name] if model_name in quantization_map.instance_qconfig_map else quantization_map.module_qconfig_map[type(model)]
        q_config, q_model = (qmodule_config.module_qconfig, qmodule_config.quantized_module)
        if not (q_config.activation_quant.n_bits > 0 or q_config.weight_quant.n_bits > 0):
            return model
        if type(model) in DEFAULT_CONVERSIONS:
            kwargs = get_module_args(model, None)
            quant_model = q_model(**kwargs, **convert_configs_to_kwargs_dict(q_config))
            quant_model.weight.data = model.weight.data
            if getattr(model, 'bias', None) is not None:
                quant_model.bias.data = model.bias.data
        elif isinstance(model, AnalogLayerBase):
            model = convert_to_digital(model)
            assert type(model) in [Linear, Conv2d], 'Only Linear and Conv2d supported at the moment'
            kwargs = get_module_args(model, None)
            quant_model = q_model(**kwargs, **convert_configs_to_kwargs_dict(q_config))
            quant_model.weight.data = model.weight.data
            if getattr(model, 'bias', None) is not None:
                quant_model.bias.data = model.bias.data
        else:
            kwargs = {'quantization_map': quantization_map, **convert_configs_to_kwargs_dict(q_config)}
            quant_model = q_model(model, **kwargs)
    else:
        quant_model = model
        for name, mod in list(quant_model.named_children()):
            full_name = model_name + '.' + name if model_name else name
            if full_name in quantization_map.excluded_modules:
                continue
            new_mod = quantize_model(mod, quantization_map, model_name=full_name)
            if new_mod is not None:
                if full_name in quantization_map.input_activation_qconfig_map.keys():
                    new_mod = QuantizedInputModule(new_mod, quantization_map.input_activation_qconfig_map[full_name])
                _replace_children(quant_model, {name: new_mod})
    return quant_model


@of("aihwkit.nn.low_precision_modules.quantized_base_modules.QuantLinear")
class QuantLinear:
    def run_forward(self, x: Tensor, weight: Tensor, bias: Tensor, offsets: Optional[Any]=None):
        return linear(x.contiguous(), weight.contiguous(), bias=bias)



@of("aihwkit.nn.low_precision_modules.quantized_base_modules.QuantConv2d")
class QuantConv2d:
    def run_forward(self, x: Tensor, weight: Tensor, bias: Tensor, offsets: Optional[Any]=None):
        return self._conv_forward(x.contiguous(), weight.contiguous(), bias)



@of("aihwkit.nn.low_precision_modules.quantized_base_modules.QuantLayerNorm")
class QuantLayerNorm:
    def run_forward(self, x: Tensor, weight: Tensor, bias: Tensor, offsets: Optional[Any]=None):
        return layer_norm(input=x.contiguous(), normalized_shape=self.normalized_shape, weight=weight.contiguous(), bias=bias.contiguous(), eps=self.eps)



@of("aihwkit.nn.low_precision_modules.quantized_base_modules.QuantEmbedding")
class QuantEmbedding:
    def __init__(self, *args: Any, activation: Optional[Any]=None, **kwargs: Any):
        super().__init__(*args, activation=activation, **kwargs)
        self.activation_quantizer = FP32Acts()

    def run_forward(self, x: Tensor, weight: Tensor, bias: Tensor, offsets: Optional[Any]=None):
        return embedding(input=x.contiguous(), weight=weight.contiguous(), padding_idx=self.padding_idx, max_norm=self.max_norm, norm_type=self.norm_type, scale_grad_by_freq=self.scale_grad_by_freq, sparse=self.sparse)



@of("aihwkit.nn.low_precision_modules.quantized_base_modules.QuantBatchNorm2d")
class QuantBatchNorm2d:
    def __init__(self, org_model: nn.Module, **quant_params: Any):
        super().__init__()
        self.module = org_model
        self.act_bn_quantizer = QuantizedActivation(**quant_params)

    def forward(self, x: Tensor):
        y = self.module(x)
        y_quant = self.act_bn_quantizer(y)
        return y_quant



@of("aihwkit.nn.low_precision_modules.quantized_input_module.QuantizedInputModule")
class QuantizedInputModule:
    def __init__(self, module: Module, act_quant_config: ActivationQuantConfig):
        super().__init__()
        self.module = module
        self.input_quantizer = QuantizedActivation(**convert_act_config_to_kwargs_dict(act_quant_config))

    def forward(self, inp: Tensor, *args: Any, **kwargs: Any):
        input_q = self.input_quantizer(inp)
        return self.module(input_q, *args, **kwargs)



@of("aihwkit.nn.low_precision_modules.quantization_states.quantized_weights")
def quantized_weights(model: Module):

    def _fn(layer: Module) -> None:
        if isinstance(layer, QuantizedModule):
            layer.quantized_weights()
    model.apply(_fn)


@of("aihwkit.nn.low_precision_modules.quantization_states.full_precision_weights")
def full_precision_weights(model: Module):

    def _fn(layer: Module) -> None:
        if isinstance(layer, QuantizedModule):
            layer.full_precision_weights()
    model.apply(_fn)


@of("aihwkit.nn.low_precision_modules.quantization_states.quantized_acts")
def quantized_acts(model: Module):

    def _fn(layer: Module) -> None:
        if isinstance(layer, QuantizedModule):
            layer.quantized_acts()
    model.apply(_fn)


@of("aihwkit.nn.low_precision_modules.quantization_states.full_precision_acts")
def full_precision_acts(model: Module):

    def _fn(layer: Module) -> None:
        if isinstance(layer, QuantizedModule):
            layer.full_precision_acts()
    model.apply(_fn)


@of("aihwkit.nn.low_precision_modules.quantization_states.quantized")
def quantized(model: Module):

    def _fn(layer: Module) -> None:
        if isinstance(layer, QuantizedModule):
            layer.quantized()
    model.apply(_fn)


@of("aihwkit.nn.low_precision_modules.quantization_states.full_precision")
def full_precision(model: Module):

    def _fn(layer: Module) -> None:
        if isinstance(layer, QuantizedModule):
            layer.full_precision()
    model.apply(_fn)


@of("aihwkit.nn.low_precision_modules.quantization_states.learn_ranges")
def learn_ranges(model: Module):
    model.apply(_set_layer_learn_ranges)


@of("aihwkit.nn.low_precision_modules.quantization_states.fix_ranges")
def fix_ranges(model: Module):
    model.apply(_set_layer_fix_ranges)


@of("aihwkit.nn.low_precision_modules.quantization_states.fix_act_ranges")
def fix_act_ranges(model: Module):

    def _fn(module: Module) -> None:
        if isinstance(module, QuantizedModule) and hasattr(module, 'activation_quantizer'):
            _set_layer_fix_ranges(module.activation_quantizer)
    model.apply(_fn)


@of("aihwkit.nn.low_precision_modules.quantization_states.fix_weight_ranges")
def fix_weight_ranges(model: Module):

    def _fn(module: Module) -> None:
        if isinstance(module, QuantizedModule) and hasattr(module, 'weight_quantizer'):
            _set_layer_fix_ranges(module.weight_quantizer)
    model.apply(_fn)


@of("aihwkit.nn.low_precision_modules.quantization_states.estimate_ranges")
def estimate_ranges(model: Module):
    model.apply(_set_layer_estimate_ranges)


@of("aihwkit.nn.low_precision_modules.quantization_states.estimate_act_ranges")
def estimate_act_ranges(model: Module):

    def _fn(module: Module) -> None:
        if isinstance(module, QuantizedModule) and hasattr(module, 'activation_quantizer'):
            _set_layer_estimate_ranges(module.activation_quantizer)
    model.apply(_fn)


@of("aihwkit.nn.low_precision_modules.quantization_states.estimate_ranges_train")
def estimate_ranges_train(model: Module):
    model.apply(_set_layer_estimate_ranges_train)


@of("aihwkit.nn.low_precision_modules.quantization_states.reset_act_ranges")
def reset_act_ranges(model: Module):

    def _fn(module: Module) -> None:
        if isinstance(module, QuantizedModule) and hasattr(module, 'activation_quantizer'):
            module.activation_quantizer.reset_ranges()
    model.apply(_fn)


@of("aihwkit.nn.low_precision_modules.quantization_states.set_quant_state")
def set_quant_state(model: Module, weight_quant: bool, act_quant: bool):
    if act_quant:
        quantized_acts(model)
    else:
        full_precision_acts(model)
    if weight_quant:
        quantized_weights(model)
    else:
        full_precision_weights(model)


@of("aihwkit.nn.low_precision_modules.quantization_states.enable_quant_states")
def enable_quant_states(model: Module):

    def _fn(layer: Module) -> None:
        if isinstance(layer, QuantizedModule):
            if layer.n_bits > 0:
                layer.quantized_weights()
            else:
                layer.full_precision_weights()
            if layer.n_bits_act > 0:
                layer.quantized_acts()
            else:
                layer.full_precision_acts()
    model.apply(_fn)


@of("aihwkit.simulator.parameters.quantization.BaseQuantConfig")
class BaseQuantConfig:
    def __post_init__(self):
        self._range_estimator_params = self._range_estimator_to_params[self._range_estimator]() if self._range_estimator != RangeEstimators.allminmax else None

    @property
    def range_estimator(self):
        return self._range_estimator

    @property
    def range_estimator_params(self):
        return self._range_estimator_params

    @range_estimator.setter
    def range_estimator(self, new_range_estimator: RangeEstimators):
        self._range_estimator = new_range_estimator
        self._range_estimator_params = self._range_estimator_to_params[new_range_estimator]() if self._range_estimator != RangeEstimators.allminmax else None

    @range_estimator_params.setter
    def range_estimator_params(self, new_params: Any):
        expected_type = self._range_estimator_to_params[self._range_estimator]
        if expected_type is None and new_params is not None:
            raise TypeError("Range estimator 'allminmax' does not accept a range_estimator params object")
        if not isinstance(new_params, expected_type):
            raise TypeError(f'Expected parameters of type {expected_type.__name__}, ' + f'got {type(new_params).__name__}')
        self._range_estimator_params = new_params



@of("aihwkit.simulator.parameters.quantization.ActivationQuantConfig")
class ActivationQuantConfig:
    def __init__(self, n_bits: int=0, symmetric: bool=True, range_estimator: RangeEstimators=RangeEstimators.running_minmax, range_estimator_params: Optional[Any]=None):
        super().__init__(n_bits=n_bits, symmetric=symmetric, _range_estimator=range_estimator)
        if range_estimator_params is not None:
            self.range_estimator_params = range_estimator_params



@of("aihwkit.simulator.parameters.quantization.WeightQuantConfig")
class WeightQuantConfig:
    def __init__(self, n_bits: int=0, symmetric: bool=True, per_channel: bool=False, range_estimator: RangeEstimators=RangeEstimators.current_minmax, range_estimator_params: Optional[Any]=None):
        super().__init__(n_bits=n_bits, symmetric=symmetric, _range_estimator=range_estimator)
        if range_estimator_params is not None:
            self.range_estimator_params = range_estimator_params
        self.per_channel = per_channel


value("aihwkit.nn.low_precision_modules.conversion_utils.DEFAULT_CONVERSIONS", {Linear: QuantLinear, LayerNorm: QuantLayerNorm, Embedding: QuantEmbedding, Conv2d: QuantConv2d})
value("aihwkit.nn.low_precision_modules.conversion_utils.LEAF_MODULES", (RangeEstimatorBase, QuantizerBase))
value("aihwkit.simulator.digital_low_precision.quantizers.round_ste_func", RoundStraightThrough.apply)


@of("aihwkit.simulator.digital_low_precision.quantizers.QMethods")
class QMethods:
    symmetric_uniform = QMethodMap(0, SymmetricUniformQuantizer)
    asymmetric_uniform = QMethodMap(1, AsymmetricUniformQuantizer)


@of("aihwkit.simulator.digital_low_precision.range_estimators.RangeEstimators")
class RangeEstimators:
    current_minmax = RangeEstimatorMap(0, CurrentMinMaxEstimator)
    allminmax = RangeEstimatorMap(1, AllMinMaxEstimator)
    running_minmax = RangeEstimatorMap(2, RunningMinMaxEstimator)
    MSE = RangeEstimatorMap(3, MSE_Estimator)
    cross_entropy = RangeEstimatorMap(4, CrossEntropyEstimator)

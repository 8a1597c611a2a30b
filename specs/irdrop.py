"""Reference definitions of the time-sliced IR-drop product (parsed, never run), confirmed by reading."""


@of("aihwkit.simulator.tiles.analog_mvm_irdrop_t.AnalogMVMIRDropT")
class AnalogMVMIRDropT:
    @classmethod
    def _get_res(cls, res: float):
        res = 1.0 / res if res > 1.0 else res
        assert res > 0, 'resolution is <= 0'
        return res

    @classmethod
    def _interleave_cols_nd(cls, mvm1: Tensor, mvm2: Tensor):
        shape = Size(mvm1.shape[0:-1]) + Size([mvm1.shape[-1] + mvm2.shape[-1]])
        mvm = empty(*shape).to(mvm1.device)
        mvm[..., 0::2] = mvm1
        mvm[..., 1::2] = mvm2
        return mvm

    @classmethod
    def _pad_symmetric(cls, input_: Tensor, weight: Tensor, phys_input_size: int=512):
        pad_size = phys_input_size - weight.shape[0]
        if pad_size <= 0:
            return (input_, weight)
        pad1 = pad_size // 2
        pad2 = pad_size - pad1
        input_pad_tuple = (pad1, pad2) + (0, 0) * (input_.dim() - 1)
        input_ = pad(input_, input_pad_tuple, 'constant', 0)
        weight = pad(weight, (0, 0, pad1, pad2), 'constant', 0)
        return (input_, weight)

    @classmethod
    def _prepare_inputs(cls, input_: Tensor, scale: Tensor, scaling: bool, with_asymmetry: bool, io_pars: IOParametersIRDropT):
        res = cls._get_res(io_pars.inp_res)
        prepared_input = super(AnalogMVMIRDropT, cls)._prepare_input(input_, scale, scaling, with_asymmetry, io_pars)
        if io_pars.mv_type == AnalogMVType.ONE_PASS:
            prepared_input = [prepared_input]
        elif io_pars.mv_type == AnalogMVType.SPLIT_MODE:
            n_bits = int(log2(1.0 / res + 2))
            if not log2(1.0 / res + 2) % 1 == 0:
                raise ConfigError(f'inp_res={1.0 / res} must be of form (2**n_bits - 2) for AnalogMVType.SPLIT_MODE')
            if not io_pars.split_mode_bit_shift % 1 == 0:
                raise ConfigError(f'split_mode_bit_shift={io_pars.split_mode_bit_shift} must be integer')
            if not io_pars.split_mode_bit_shift < n_bits:
                raise ConfigError(f'split_mode_bit_shift={io_pars.split_mode_bit_shift} cannot exceed equivalent bits specified by inp_res={n_bits}.')
            int_input = prepared_input / (2 * res)
            upper_bits = sign(int_input) * floor(torch_abs(int_input) / 2 ** io_pars.split_mode_bit_shift)
            prepared_input_msb = upper_bits * (2 * res)
            lower_bits = fmod(int_input, 2 ** io_pars.split_mode_bit_shift)
            prepared_input_lsb = lower_bits * (2 * res)
            if not allclose(2 ** io_pars.split_mode_bit_shift * prepared_input_msb + prepared_input_lsb, prepared_input):
                raise ConfigError('Split mode pwm conversion error')
            prepared_input = [prepared_input_lsb, prepared_input_msb]
        elif io_pars.mv_type == AnalogMVType.BIT_WISE:
            int_input = prepared_input / (2.0 * res)
            n_bits = int(log2(1.0 / res + 2)) - 1
            prepared_input = []
            for _ in range(n_bits):
                lsb = fmod(int_input, 2)
                int_input = sign(int_input) * floor(torch_abs(int_input) / 2)
                prepared_input.append(lsb * (2 * res))
        elif io_pars.mv_type in [AnalogMVType.POS_NEG_SEPARATE, AnalogMVType.POS_NEG_SEPARATE_DIGITAL_SUM]:
            raise NotImplementedError
        else:
            raise ConfigError(f'Unknown AnalogMVType {io_pars.mv_type}')
        return prepared_input

    @classmethod
    def _apply_xdep_pcm_read_noise(cls, weight: Tensor, input_: Tensor, io_pars: IOParametersIRDropT, g_converter: SinglePairConductanceConverter, res: float):
        read_noise_scale = io_pars.xdep_pcm_read_noise_scale
        sigma_noise_slope_coefficients = [0.00021926, -0.00187352, 0.00655714, -0.0146159, 0.02578764]
        sigma_noise_offset_coefficients = [1.11906167e-09, -9.08576764e-09, 3.07015063e-08, -6.77079241e-08, 1.17763144e-07]
        t_integration = torch_mean(torch_abs(input_) / (2 * res))
        if t_integration > 0.0:
            x = torch_log10(t_integration)
        else:
            x = torch.tensor(0.0, dtype=t_integration.dtype, device=t_integration.device)
        conductances_lst, params = g_converter.convert_to_conductances(weight)
        conductances = torch_abs(conductances_lst[0] - conductances_lst[1])
        sig_noise_slope = sigma_noise_slope_coefficients[0] * x ** 4 + sigma_noise_slope_coefficients[1] * x ** 3 + sigma_noise_slope_coefficients[2] * x ** 2 + sigma_noise_slope_coefficients[3] * x ** 1 + sigma_noise_slope_coefficients[4]
        sig_noise_offset = (sigma_noise_offset_coefficients[0] * x ** 4 + sigma_noise_offset_coefficients[1] * x ** 3 + sigma_noise_offset_coefficients[2] * x ** 2 + sigma_noise_offset_coefficients[3] * x ** 1 + sigma_noise_offset_coefficients[4]) * 1000000.0
        sig_noise = sig_noise_slope * conductances + sig_noise_offset
        g_final = conductances + read_noise_scale * sig_noise * randn_like(weight)
        weight = g_final * sign(weight) / params['scale_ratio']
        return weight

    @classmethod
    def _apply_adc_quantization(cls, mvm: Tensor, io_pars: IOParametersIRDropT):
        adc_ticks = trunc(mvm / 100 * io_pars.adc_frequency)
        mvm = adc_ticks * 100 / io_pars.adc_frequency
        return mvm

    @classmethod
    def _thev_equiv(cls, input_: Tensor, g_lst: List[Tensor], time_steps: int=128, t_max: float=1.0, segments: int=8, r_s: float=0.15, phys_input_size: int=512, use_extension: bool=True):
        syn_rows_per_seg = int(phys_input_size / segments)
        assert syn_rows_per_seg * segments == phys_input_size, 'Error: phys_input_size (%s) must be evenly divisible by number of segments (%s)' % (str(phys_input_size), str(segments))
        gp_2d, gm_2d = g_lst
        out_sh = Size(input_.shape[0:-1]) + Size([gp_2d.shape[1]]) + Size([time_steps])
        input_ = input_.view(-1, input_.shape[-1])
        if use_extension and extension_ops is not None:
            output = extension_ops.thevenin_equiv(input_, gp_2d.T.contiguous(), gm_2d.T.contiguous(), r_s, t_max, time_steps)
            vth_3d = output[0, :, :, :]
            rth_3d = output[1, :, :, :]
            vth_nd = vth_3d.view(*out_sh)
            rth_nd = rth_3d.view(*out_sh)
            return (vth_nd, rth_nd)
        gp_4d = gp_2d[None, :, :, None]
        gm_4d = gm_2d[None, :, :, None]
        t_4d = linspace(0.0, t_max, time_steps)[None, None, None, :].to(input_.device)
        x_4d = input_[:, :, None, None]
    
        def sum_segs(g_values: Tensor) -> Tensor:
            if syn_rows_per_seg == 1:
                return g_values
            shape = g_values.shape
            return g_values.view((shape[0], shape[1] // syn_rows_per_seg, syn_rows_per_seg, shape[2], shape[3])).sum(dim=2)
        pos_msk = x_4d > t_4d
        neg_msk = x_4d < -t_4d
        g_4d = gp_4d * pos_msk + gm_4d * neg_msk
        g_4d = sum_segs(g_4d)
        gth_4d_segs = g_4d
        vth_4d_segs = 0.6 * g_4d
        g_4d = gm_4d * pos_msk + gp_4d * neg_msk
        g_4d = sum_segs(g_4d)
        gth_4d_segs += g_4d
        vth_4d_segs += 0.2 * g_4d
        g_4d = (torch_abs(x_4d) <= t_4d) * (gp_4d + gm_4d)
        g_4d = sum_segs(g_4d)
        gth_4d_segs += g_4d + 1e-12
        vth_4d_segs += 0.4 * g_4d
        vth_4d_segs /= gth_4d_segs
        g_4d = None
        rw_segs = 1e-06 * r_s * syn_rows_per_seg
        vth_3d = vth_4d_segs[:, 0, :, :]
        rth_3d = 1.0 / gth_4d_segs[:, 0, :, :]
        for seg in range(1, segments, 1):
            r_1 = rth_3d + rw_segs
            r_2 = 1.0 / gth_4d_segs[:, seg, :, :]
            rth_3d = r_1 * r_2 / (r_1 + r_2)
            vth_3d = (vth_3d / r_1 + vth_4d_segs[:, seg, :, :] / r_2) * rth_3d
        rth_3d += 0.5 * rw_segs
        vth_nd = vth_3d.view(*out_sh)
        rth_nd = rth_3d.view(*out_sh)
        return (vth_nd, rth_nd)

    @classmethod
    def _matmul_irdrop(cls, weight: Tensor, input_: Tensor, trans: bool, io_pars: IOParametersIRDropT, ir_drop: float, t_max: float, time_steps: int, phys_input_size: int, g_converter: SinglePairConductanceConverter, info: Optional[str]=None):
        ir_drop_rs = ir_drop * io_pars.ir_drop_rs
        res = cls._get_res(io_pars.inp_res)
        bit_res = io_pars.inp_bound / res
        if io_pars.apply_xdep_pcm_read_noise:
            weight = cls._apply_xdep_pcm_read_noise(weight, input_, io_pars, g_converter, res)
        if ir_drop == 0.0:
            return super(AnalogMVMIRDropT, cls)._matmul(weight, input_, trans)
        if weight.dim() != 2:
            raise ConfigError('Only 2-d weights are supported for time-sliced IR-drop')
        if not trans:
            new_weight = weight.T
        else:
            new_weight = weight
        syn_rows_per_seg = int(phys_input_size / io_pars.ir_drop_segments)
        assert syn_rows_per_seg * io_pars.ir_drop_segments == phys_input_size, 'Error: phys_input_size (%s) must be evenly divisible by number of segments (%s)' % (str(phys_input_size), str(io_pars.ir_drop_segments))
        input_, new_weight = cls._pad_symmetric(input_, new_weight, phys_input_size=phys_input_size)
        g_lst, params = g_converter.convert_to_conductances(new_weight)
        mvm = zeros((*input_.shape[:-1], g_lst[0].shape[1])).to(input_.device)
        for f_factor, g_lst_pair in zip(params.get('f_lst', [1.0]), zip(g_lst[::2], g_lst[1::2])):
            vth_nd, rth_nd = cls._thev_equiv(input_, [g[:, 0::2] for g in g_lst_pair], time_steps=time_steps, t_max=t_max, segments=io_pars.ir_drop_segments, r_s=ir_drop_rs, phys_input_size=phys_input_size)
            i_out_nd = (vth_nd - io_pars.ir_drop_v_read) / rth_nd
            if io_pars.ir_drop_integration_sum:
                mvm_even_col_down_adc = torch_sum(i_out_nd, dim=-1)
            else:
                i_out_nd = torch.cat((i_out_nd[..., 0].unsqueeze(-1), i_out_nd), -1)
                mvm_even_col_down_adc = torch_trapz(i_out_nd, dim=-1)
            if io_pars.adc_quantization:
                mvm_even_col_down_adc = cls._apply_adc_quantization(mvm_even_col_down_adc, io_pars)
            vth_nd, rth_nd = cls._thev_equiv(flip(input_, (-1,)), [flip(g[:, 1::2], (0,)) for g in g_lst_pair], time_steps=time_steps, t_max=t_max, segments=io_pars.ir_drop_segments, r_s=ir_drop_rs, phys_input_size=phys_input_size)
            i_out_nd = (vth_nd - io_pars.ir_drop_v_read) / rth_nd
            if io_pars.ir_drop_integration_sum:
                mvm_odd_col_up_adc = torch_sum(i_out_nd, dim=-1)
            else:
                i_out_nd = torch.cat((i_out_nd[..., 0].unsqueeze(-1), i_out_nd), -1)
                mvm_odd_col_up_adc = torch_trapz(i_out_nd, dim=-1)
            if io_pars.adc_quantization:
                mvm_odd_col_up_adc = cls._apply_adc_quantization(mvm_odd_col_up_adc, io_pars)
            mvm += f_factor * cls._interleave_cols_nd(mvm_even_col_down_adc, mvm_odd_col_up_adc)
        mvm /= params['scale_ratio']
        mvm /= 0.2
        mvm /= bit_res / 2.0
        return mvm

    @classmethod
    def _compute_analog_mv(cls, weight: Tensor, input_: Tensor, trans: bool, scale: float, scaling: bool, is_test: bool, io_pars: IOParametersIRDropT, phys_input_size: int, g_converter: SinglePairConductanceConverter, **fwd_pars: Any):
        ir_drop = io_pars.ir_drop if is_test else 0.0
        prepared_input = cls._prepare_inputs(input_=input_, scale=scale, scaling=scaling, with_asymmetry=io_pars.inp_asymmetry != 0.0, io_pars=io_pars)
        res = cls._get_res(io_pars.inp_res)
        bit_res = io_pars.inp_bound / res + 2
        if io_pars.mv_type == AnalogMVType.ONE_PASS:
            out_values = cls._matmul_irdrop(weight, prepared_input[0], trans, io_pars, ir_drop=ir_drop, t_max=1.0, time_steps=int(bit_res / 2 * io_pars.ir_drop_time_step_resolution_scale), phys_input_size=phys_input_size, g_converter=g_converter)
            bound_test_passed, finalized_outputs = cls._finalize_output(out_values=out_values, io_pars=io_pars, **fwd_pars)
        elif io_pars.mv_type == AnalogMVType.SPLIT_MODE:
            [prepared_input_lsb, prepared_input_msb] = prepared_input
            time_steps = int(2 ** io_pars.split_mode_bit_shift)
            t_max = 2 * res * (2 ** io_pars.split_mode_bit_shift - 1)
            out_values_lsb = cls._matmul_irdrop(weight, prepared_input_lsb, trans, io_pars, ir_drop=ir_drop, t_max=t_max, time_steps=int(time_steps * io_pars.ir_drop_time_step_resolution_scale), phys_input_size=phys_input_size, g_converter=g_converter, info='LSB')
            bound_test_passed_lsb, finalized_outputs_lsb = cls._finalize_output(out_values=out_values_lsb, io_pars=io_pars, **fwd_pars)
            time_steps = 2 ** int(log2(bit_res) - io_pars.split_mode_bit_shift - 1)
            t_max = 2 * res * (time_steps - 1)
            out_values_msb = cls._matmul_irdrop(weight, prepared_input_msb, trans, io_pars, ir_drop=ir_drop, t_max=t_max, time_steps=int(time_steps * io_pars.ir_drop_time_step_resolution_scale), phys_input_size=phys_input_size, g_converter=g_converter, info='MSB')
            bound_test_passed_msb, finalized_outputs_msb = cls._finalize_output(out_values=out_values_msb, io_pars=io_pars, **fwd_pars)
            finalized_outputs = finalized_outputs_lsb + 2 ** io_pars.split_mode_bit_shift * finalized_outputs_msb
            bound_test_passed = bound_test_passed_lsb * bound_test_passed_msb
        elif io_pars.mv_type == AnalogMVType.BIT_WISE:
            finalized_outputs, bound_test_passed = (0.0, True)
            for bit_pos, prepared_input_1b in enumerate(prepared_input):
                out_values_1b = cls._matmul_irdrop(weight, prepared_input_1b, trans, io_pars, ir_drop=ir_drop, t_max=2 * res, time_steps=2, phys_input_size=phys_input_size, g_converter=g_converter, info=str(bit_pos))
                bound_test_passed_1b, finalized_outputs_1b = cls._finalize_output(out_values=out_values_1b, io_pars=io_pars, **fwd_pars)
                finalized_outputs += 2 ** bit_pos * finalized_outputs_1b
                bound_test_passed *= bound_test_passed_1b
        elif io_pars.mv_type in [AnalogMVType.POS_NEG_SEPARATE, AnalogMVType.POS_NEG_SEPARATE_DIGITAL_SUM]:
            raise NotImplementedError
        else:
            raise ConfigError(f'Unknown AnalogMVType {io_pars.mv_type}')
        return (bound_test_passed, finalized_outputs)

    @classmethod
    def check_support(cls, io_pars: IOParameters):
        if io_pars.mv_type not in [AnalogMVType.ONE_PASS, AnalogMVType.SPLIT_MODE, AnalogMVType.BIT_WISE]:
            raise ConfigError('Only AnalogMVType.ONE_PASS, AnalogMVType.SPLIT_MODE, and AnalogMVType.BIT_WISE supported as forward.mv_type')
        if io_pars.bound_management == BoundManagementType.SHIFT:
            raise ConfigError('Shift bound management not supported in torch tile')
        if io_pars.noise_management in [NoiseManagementType.AVERAGE_ABS_MAX, NoiseManagementType.ABS_MAX_NP_SUM]:
            raise ConfigError('Special noise mangement types not supported.')
        if io_pars.w_noise > 0.0 or io_pars.w_noise_type != WeightNoiseType.NONE:
            raise ConfigError('forward.w_noise not supported in torch tile')
        if io_pars.out_nonlinearity > 0.0:
            raise ConfigError('S-shaped non-linearity not supported in torch tile')
        if io_pars.slope_calibration > 0.0:
            raise ConfigError('Slope calibration not supported in torch tile')
        if io_pars.v_offset_std > 0.0 or io_pars.v_offset_w_min > 0.0 or io_pars.r_series > 0.0:
            raise ConfigError('Voltage offset or R-series not supported in torch tile')
        if io_pars.w_read_asymmetry_dtod > 0.0:
            raise ConfigError('Device polarity read dependence is not supported in torch tile')



@of("aihwkit.simulator.tiles.torch_tile_irdrop_t.TorchSimulatorTileIRDropT")
class TorchSimulatorTileIRDropT:
    def __init__(self, x_size: int, d_size: int, rpu_config: 'TorchInferenceRPUConfigIRDropT', bias: bool=False):
        self._phys_input_size = rpu_config.mapping.max_input_size or x_size
        self._g_converter = rpu_config.noise_model.g_converter
        super().__init__(x_size, d_size, rpu_config, bias, analog_mvm=AnalogMVMIRDropT)

    def forward(self, x_input: Tensor, bias: bool=False, in_trans: bool=False, out_trans: bool=False, is_test: bool=False, non_blocking: bool=False):
        if in_trans or out_trans:
            raise TorchTileConfigError('Non-trans MVMs supported only.')
        if not is_test:
            noisy_weights = self.modify_weight(self.weight, self._modifier, x_input.shape[0])
        else:
            noisy_weights = self.weight
        return self._analog_mvm.matmul(noisy_weights, x_input, self._f_io, False, is_test, phys_input_size=self._phys_input_size, g_converter=self._g_converter, out_noise_values=self.out_noise_values)


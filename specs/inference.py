"""Reference definitions of inference: noise models, conductance converters, drift compensation, calibration, weight programming optimization (parsed, never run), confirmed by reading."""


@of("aihwkit.inference.noise.base.BaseNoiseModel")
class BaseNoiseModel:
    def __init__(self, g_converter: Optional[BaseConductanceConverter]=None):
        self.g_converter = g_converter or SinglePairConductanceConverter()

    def __eq__(self, other: object):
        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__

    def apply_noise(self, weights: Tensor, t_inference: float):
        target_conductances, params = self.g_converter.convert_to_conductances(weights)
        noisy_conductances = []
        for g_target in target_conductances:
            g_prog = self.apply_programming_noise_to_conductance(g_target)
            if t_inference > 0:
                nu_drift = self.generate_drift_coefficients(g_target)
                noisy_conductances.append(self.apply_drift_noise_to_conductance(g_prog, nu_drift, t_inference))
            else:
                noisy_conductances.append(g_prog)
        noisy_weights = self.g_converter.convert_back_to_weights(noisy_conductances, params)
        return noisy_weights

    def apply_programming_noise(self, weights: Tensor):
        target_conductances, params = self.g_converter.convert_to_conductances(weights)
        noisy_conductances = []
        nu_drift_list = []
        for g_target in target_conductances:
            noisy_conductances.append(self.apply_programming_noise_to_conductance(g_target))
            nu_drift_list.append(self.generate_drift_coefficients(g_target))
        noisy_weights = self.g_converter.convert_back_to_weights(noisy_conductances, params)
        return (noisy_weights, nu_drift_list)

    def apply_drift_noise(self, weights: Tensor, drift_noise_parameters: List[Optional[Tensor]], t_inference: float):
        target_conductances, params = self.g_converter.convert_to_conductances(weights)
        noisy_conductances = []
        for g_target, drift_noise_param in zip(target_conductances, drift_noise_parameters):
            noisy_conductances.append(self.apply_drift_noise_to_conductance(g_target, drift_noise_param, t_inference))
        noisy_weights = self.g_converter.convert_back_to_weights(noisy_conductances, params)
        return noisy_weights

    def generate_drift_coefficients(self, g_target: Tensor):
        pass


@of("aihwkit.inference.noise.custom.StateIndependentNoiseModel")
class StateIndependentNoiseModel:
    def __init__(self, g_converter: Optional[BaseConductanceConverter]=None, g_max: Optional[float]=None, prog_coeff: Optional[List[float]]=None, prog_noise_scale: float=1.0, drift_nu_mean: float=0.1, drift_nu_std: float=0.05, drift_scale: float=1.0, t_0: float=20.0, read_noise_scale: float=1.0, t_read: float=2.5e-07):
        g_converter = deepcopy(g_converter) or SinglePairConductanceConverter(g_max=g_max)
        super().__init__(g_converter)
        self.g_max = getattr(self.g_converter, 'g_max', g_max)
        if self.g_max is None:
            raise ValueError('g_max cannot be established from g_converter')
        self.prog_coeff = [0.2, 0.0, 0.0] if prog_coeff is None else prog_coeff
        self.prog_noise_scale = prog_noise_scale
        self.drift_nu_mean = drift_nu_mean
        self.drift_nu_std = drift_nu_std
        self.drift_scale = drift_scale
        self.t_0 = t_0
        self.read_noise_scale = read_noise_scale
        self.t_read = t_read

    def apply_programming_noise_to_conductance(self, g_target: Tensor):
        mat = 1
        sig_prog = self.prog_coeff[0]
        for coeff in self.prog_coeff[1:]:
            mat *= g_target / self.g_max
            sig_prog += mat * coeff
        g_prog = g_target + self.prog_noise_scale * sig_prog * randn_like(g_target)
        g_prog.clamp_(min=0.0)
        return g_prog

    def generate_drift_coefficients(self, g_target: Tensor):
        mu_drift = self.drift_nu_mean
        sig_drift = self.drift_nu_std
        nu_drift = torch_abs(mu_drift + sig_drift * randn_like(g_target)).clamp(min=0.0)
        return nu_drift * self.drift_scale

    def apply_drift_noise_to_conductance(self, g_prog: Tensor, drift_noise_param: Tensor, t_inference: float):
        t = t_inference + self.t_0
        if t > self.t_0:
            g_drift = g_prog * (t / self.t_0) ** (-drift_noise_param)
        else:
            g_drift = g_prog
        if t > 0:
            sig_noise = sqrt(numpy_log((t + self.t_read) / (2 * self.t_read)))
            g_final = g_drift + torch_abs(g_drift / self.g_max) * self.read_noise_scale * sig_noise * randn_like(g_drift)
        else:
            g_final = g_prog
        return g_final.clamp(min=0.0)



@of("aihwkit.inference.noise.hermes.HermesNoiseModel")
class HermesNoiseModel:
    def __init__(self, prog_coeff: Optional[List[float]]=None, g_converter: Optional[BaseConductanceConverter]=None, num_devices: int=2, g_max: Optional[float]=None, t_read: float=5.12e-07, t_0: Optional[float]=None, prog_noise_scale: float=1.0, read_noise_scale: float=1.0, drift_scale: float=1.0, prog_coeff_g_max_reference: Optional[float]=None):
        assert num_devices in [1, 2], 'Hermes supports either 1 or 2 devices per weight'
        self.num_devices = num_devices
        if t_0 is None:
            t_0 = 300.0 if self.num_devices == 2 else 200.0
        if self.num_devices == 1:
            if g_max is not None:
                assert g_max <= 10.35, 'The maximum conductance characterized for single device unit cell is 10.35 uS'
            else:
                g_max = 10.35
        elif self.num_devices == 2:
            if g_max is not None:
                assert g_max <= 20.7, 'The maximum conductance characterized for single device unit cell is 10.35 uS'
            else:
                g_max = 20.7
        g_converter = deepcopy(g_converter) or SinglePairConductanceConverter(g_max=g_max)
        super().__init__(g_converter)
        self.g_max = getattr(self.g_converter, 'g_max', g_max)
        if self.g_max is None:
            raise ValueError('g_max cannot be established from g_converter')
        if prog_coeff_g_max_reference is None:
            prog_coeff_g_max_reference = self.g_max
        self.prog_coeff_g_max_reference = prog_coeff_g_max_reference
        if prog_coeff is None:
            if self.num_devices == 2:
                self.prog_coeff = [0.16603222, 4.71806468, -8.48101252, 4.68961419]
                self.prog_coeff_g_max_reference = 20.7
            elif self.num_devices == 1:
                self.prog_coeff = [0.15781817, 2.32443916, -2.16310839, 0.68841818]
                self.prog_coeff_g_max_reference = 10.35
        else:
            self.prog_coeff = prog_coeff
        self.t_0 = t_0
        self.t_read = t_read
        self.prog_noise_scale = prog_noise_scale
        self.read_noise_scale = read_noise_scale
        self.drift_scale = drift_scale

    def apply_programming_noise_to_conductance(self, g_target: Tensor):
        mat = 1
        sig_prog = self.prog_coeff[0]
        for coeff in self.prog_coeff[1:]:
            mat *= g_target / self.g_max
            sig_prog += mat * coeff
        sig_prog *= self.g_max / self.prog_coeff_g_max_reference
        g_prog = g_target + self.prog_noise_scale * sig_prog * randn_like(g_target)
        g_prog.clamp_(min=0.0)
        return g_prog

    def generate_drift_coefficients(self, g_target: Tensor):
        g_relative = clamp(torch_abs(g_target / self.g_max), min=_ZERO_CLIP)
        mu_drift, sig_drift = (zeros_like(g_relative), zeros_like(g_relative))
        g_rel_low_mean, g_rel_high_mean = (g_relative[g_relative < 0.0945], g_relative[[g_relative >= 0.0945]])
        mu_drift[g_relative < 0.0945] = (-0.0387 * log(g_rel_low_mean) - 0.0182).clamp(min=0.072, max=0.13)
        mu_drift[g_relative >= 0.0945] = -0.0436 * g_rel_high_mean ** 2 - 0.0126 * g_rel_high_mean + 0.0736
        if self.num_devices == 1:
            g_rel_low_std, g_rel_high_std = (g_relative[g_relative < 0.3039], g_relative[[g_relative >= 0.3039]])
            sig_drift[g_relative < 0.3039] = (-0.012 * log(g_rel_low_std) - 0.0023).clamp(min=0.0124, max=0.04)
            sig_drift[g_relative >= 0.3039] = -0.0165 * g_rel_high_std ** 2 + 0.0116 * g_rel_high_std + 0.0104
        elif self.num_devices == 2:
            g_rel_low_std, g_rel_high_std = (g_relative[g_relative < 0.3055], g_relative[[g_relative >= 0.3055]])
            sig_drift[g_relative < 0.3055] = (-0.0117 * log(g_rel_low_std) - 0.0057).clamp(min=0.0091, max=0.04)
            sig_drift[g_relative >= 0.3055] = -0.0118 * g_rel_high_std ** 2 + 0.0093 * g_rel_high_std + 0.0073
        nu_drift = torch_abs(mu_drift + sig_drift * randn_like(g_relative)).clamp(min=0.0)
        return nu_drift * self.drift_scale

    def apply_drift_noise_to_conductance(self, g_prog: Tensor, drift_noise_param: Tensor, t_inference: float):
        t = t_inference + self.t_0
        if t > self.t_0:
            g_drift = g_prog * (t / self.t_0) ** (-drift_noise_param)
        else:
            g_drift = g_prog
        if t > 0:
            g_relative = torch_abs(g_prog) / self.g_max
            q_s = zeros_like(g_prog)
            if self.num_devices == 1:
                g_rel_low, g_rel_high = (g_relative[g_relative < 0.1591], g_relative[[g_relative >= 0.1591]])
                q_s[g_relative < 0.1591] = (-0.0078 * log(g_rel_low) + 0.0038).clamp(min=0.0179, max=0.04)
                q_s[g_relative >= 0.1591] = 0.0664 * g_rel_high ** 3 - 0.1352 * g_rel_high ** 2 + 0.0768 * g_rel_high + 0.0088
            elif self.num_devices == 2:
                g_rel_low, g_rel_high = (g_relative[g_relative < 0.16], g_relative[[g_relative >= 0.16]])
                q_s[g_relative < 0.16] = (-0.0117 * log(g_rel_low) - 0.0069).clamp(min=0.015, max=0.04)
                q_s[g_relative >= 0.16] = 0.0069 * g_rel_high ** 3 - 0.028 * g_rel_high ** 2 + 0.0211 * g_rel_high + 0.0123
            sig_noise = q_s * sqrt(numpy_log((t + self.t_read) / (2 * self.t_read)))
            g_final = g_drift + torch_abs(g_drift) * self.read_noise_scale * sig_noise * randn_like(g_prog)
        else:
            g_final = g_prog
        return g_final.clamp(min=0.0)



@of("aihwkit.inference.noise.pcm.PCMLikeNoiseModel")
class PCMLikeNoiseModel:
    def __init__(self, prog_coeff: Optional[List[float]]=None, g_converter: Optional[BaseConductanceConverter]=None, g_max: Optional[float]=None, t_read: float=2.5e-07, t_0: float=20.0, prog_noise_scale: float=1.0, read_noise_scale: float=1.0, drift_scale: float=1.0, prog_coeff_g_max_reference: Optional[float]=None):
        g_converter = deepcopy(g_converter) or SinglePairConductanceConverter(g_max=g_max)
        super().__init__(g_converter)
        self.g_max = getattr(self.g_converter, 'g_max', g_max)
        if self.g_max is None:
            raise ValueError('g_max cannot be established from g_converter')
        if prog_coeff_g_max_reference is None:
            prog_coeff_g_max_reference = self.g_max
        self.prog_coeff_g_max_reference = prog_coeff_g_max_reference
        if prog_coeff is None:
            self.prog_coeff = [0.26348, 1.965, -1.1731]
            self.prog_coeff_g_max_reference = 25.0
        else:
            self.prog_coeff = prog_coeff
        self.t_0 = t_0
        self.t_read = t_read
        self.prog_noise_scale = prog_noise_scale
        self.read_noise_scale = read_noise_scale
        self.drift_scale = drift_scale

    def apply_programming_noise_to_conductance(self, g_target: Tensor):
        mat = 1
        sig_prog = self.prog_coeff[0]
        for coeff in self.prog_coeff[1:]:
            mat *= g_target / self.g_max
            sig_prog += mat * coeff
        sig_prog *= self.g_max / self.prog_coeff_g_max_reference
        g_prog = g_target + self.prog_noise_scale * sig_prog * randn_like(g_target)
        g_prog.clamp_(min=0.0)
        return g_prog

    def generate_drift_coefficients(self, g_target: Tensor):
        g_relative = clamp(torch_abs(g_target / self.g_max), min=_ZERO_CLIP)
        mu_drift = (-0.0155 * log(g_relative) + 0.0244).clamp(min=0.049, max=0.1)
        sig_drift = (-0.0125 * log(g_relative) - 0.0059).clamp(min=0.008, max=0.045)
        nu_drift = torch_abs(mu_drift + sig_drift * randn_like(g_relative)).clamp(min=0.0)
        return nu_drift * self.drift_scale

    def apply_drift_noise_to_conductance(self, g_prog: Tensor, drift_noise_param: Tensor, t_inference: float):
        t = t_inference + self.t_0
        if t > self.t_0:
            g_drift = g_prog * (t / self.t_0) ** (-drift_noise_param)
        else:
            g_drift = g_prog
        if t > 0:
            q_s = (0.0088 / ((torch_abs(g_prog) / self.g_max) ** 0.65).clamp(min=0.001)).clamp(max=0.2)
            sig_noise = q_s * sqrt(numpy_log((t + self.t_read) / (2 * self.t_read)))
            g_final = g_drift + torch_abs(g_drift) * self.read_noise_scale * sig_noise * randn_like(g_prog)
        else:
            g_final = g_prog
        return g_final.clamp(min=0.0)



@of("aihwkit.inference.noise.pcm.CustomDriftPCMLikeNoiseModel")
class CustomDriftPCMLikeNoiseModel:
    def __init__(self, custom_drift_model: dict, prog_coeff: Optional[List[float]]=None, g_converter: Optional[BaseConductanceConverter]=None, g_max: Optional[float]=None, t_read: float=2.5e-07, t_0: float=20.0, prog_noise_scale: float=1.0, read_noise_scale: float=1.0, drift_scale: float=1.0, prog_coeff_g_max_reference: Optional[float]=None):
        g_converter = deepcopy(g_converter) or SinglePairConductanceConverter(g_max=g_max)
        super().__init__(prog_coeff=prog_coeff, g_converter=g_converter, g_max=g_max, t_read=t_read, t_0=t_0, prog_noise_scale=prog_noise_scale, read_noise_scale=read_noise_scale, drift_scale=drift_scale, prog_coeff_g_max_reference=prog_coeff_g_max_reference)
        self.custom_drift_model = custom_drift_model
        assert isinstance(self.custom_drift_model, dict), 'custom_drift_model must be specified as dictionary'
        assert all((key in self.custom_drift_model for key in ['g_lst', 'nu_mean_lst', 'nu_std_lst'])), 'Missing required key in custom_drift_model: g_lst, nu_mean_lst, nu_std_lst'
        assert all((isinstance(val, List) for _, val in self.custom_drift_model.items())), 'Value corresponding to each key in custom_drift_model must be a list'
        assert all((len(val) >= 2 for _, val in self.custom_drift_model.items())), 'Each key in custom_drift_model musthave at least 2 elements'
        assert sorted(self.custom_drift_model['g_lst']) == self.custom_drift_model['g_lst'], 'Elements in custom_drift_model[g_lst] must be in ascending order'
        drift_model_g_min = min(self.custom_drift_model['g_lst'])
        drift_model_g_max = max(self.custom_drift_model['g_lst'])
        if hasattr(g_converter, 'g_min') and hasattr(g_converter, 'g_max'):
            g_converter_g_min = g_converter.g_min
            g_converter_g_max = g_converter.g_max
        elif hasattr(g_converter, 'g_lst'):
            g_converter_g_min = min((min(gs) for gs in g_converter.g_lst))
            g_converter_g_max = max((max(gs) for gs in g_converter.g_lst))
        else:
            raise ValueError('Unsupported g_converter and drift model combination.')
        if g_converter_g_min < drift_model_g_min or g_converter_g_max > drift_model_g_max:
            raise ValueError('g_converter producing conductances (g_min = %0.3f, g_max = %0.3f) outside the range of the custom drift model (g_min = %0.3f, g_max = %0.3f)' % (g_converter_g_min, g_converter_g_max, drift_model_g_min, drift_model_g_max))

    def generate_drift_coefficients(self, g_target: Tensor):
        if self.custom_drift_model is None:
            raise ValueError('custom_drift_model is not set.')
        g_lst = Tensor(self.custom_drift_model.get('g_lst'))
        nu_mean_lst = Tensor(self.custom_drift_model.get('nu_mean_lst'))
        nu_std_lst = Tensor(self.custom_drift_model.get('nu_std_lst'))
        g_min = torch_min(g_lst)
        g_max = torch_max(g_lst)
        g_target = g_target.clamp(min=g_min.item(), max=g_max.item())
        assert (g_target >= g_min).all(), 'All G values must be >= g_min'
        assert (g_target <= g_max).all(), 'All G values must be <= g_max'
        assert (g_lst >= 0).all(), 'All values specified in g_lst must be > 0'
        assert (nu_std_lst >= 0).all(), 'All values specified in nu_std_lst must be > 0'
        assert equal(torch_sort(g_lst)[0], g_lst), 'Values in g_lst must be in ascending order'
        nu_mean = from_numpy(interp(g_target.numpy(), g_lst.numpy(), nu_mean_lst.numpy())).float()
        nu_std = from_numpy(interp(g_target.numpy(), g_lst.numpy(), nu_std_lst.numpy())).float()
        nu_drift = torch_abs(nu_mean + nu_std * randn_like(g_target))
        nu_drift[nu_drift < 0] = 0.0
        return nu_drift * self.drift_scale



@of("aihwkit.inference.noise.reram.ReRamWan2022NoiseModel")
class ReRamWan2022NoiseModel:
    def __init__(self, coeff_dic: Optional[Dict[float, List]]=None, g_converter: Optional[BaseConductanceConverter]=None, g_max: Optional[float]=None, noise_scale: float=1.0, coeff_g_max_reference: Optional[float]=None):
        g_converter = deepcopy(g_converter) or SinglePairConductanceConverter(g_max=g_max)
        super().__init__(g_converter)
        self.g_max = getattr(self.g_converter, 'g_max', g_max)
        if self.g_max is None:
            raise ValueError('g_max cannot be established from g_converter')
        if coeff_g_max_reference is None:
            coeff_g_max_reference = self.g_max
        self.coeff_g_max_reference = coeff_g_max_reference
        if coeff_dic is None:
            coeff_dic = {1.0: [-16.815, 45.393, -43.853, 16.03, 0.348][::-1], 3600 * 24.0: [-16.458, 47.095, -50.773, 22.086, 0.701][::-1], 3600 * 24.0 * 2: [-11.934, 37.062, -43.507, 20.274, 0.782][::-1]}
            self.coeff_g_max_reference = 40.0
        self.coeff_dic = coeff_dic
        self.noise_scale = noise_scale

    def _apply_poly(self, g_target: Tensor, coeff: List, scale: float=1.0):
        mat = 1
        sig_prog = coeff[0]
        for value in coeff[1:]:
            mat *= g_target / self.g_max
            sig_prog += mat * value
        sig_prog *= self.g_max / self.coeff_g_max_reference
        g_prog = g_target + scale * sig_prog * randn_like(g_target)
        g_prog.clamp_(min=0.0)
        return g_prog

    def apply_programming_noise_to_conductance(self, g_target: Tensor):
        min_key = min(list(self.coeff_dic.keys()))
        return self._apply_poly(g_target, self.coeff_dic[min_key], self.noise_scale)

    def generate_drift_coefficients(self, g_target: Tensor):
        return g_target

    def apply_drift_noise_to_conductance(self, g_prog: Tensor, g_target: Tensor, t_inference: float):
        if t_inference not in self.coeff_dic:
            raise ArgumentError(f't_inference should be one of `{list(self.coeff_dic.keys())}`')
        g_final = self._apply_poly(g_target, self.coeff_dic[t_inference], self.noise_scale)
        return g_final.clamp(min=0.0)



@of("aihwkit.inference.noise.reram.ReRamCMONoiseModel")
class ReRamCMONoiseModel:
    def __init__(self, coeff_dict: Optional[Dict[float, List]]=None, g_max: Optional[float]=None, g_min: Optional[float]=None, prog_noise_scale: float=1.0, read_noise_scale: float=1.0, drift_scale: float=1.0, decay_dict: Optional[Dict[str, List]]=None, read_dict: Optional[Dict[str, float]]=None, acceptance_range: float=0.02):
        g_converter = SingleDeviceConductanceConverter(g_max=g_max, g_min=g_min)
        super().__init__(g_converter)
        g_max = getattr(self.g_converter, 'g_max', g_max)
        g_min = getattr(self.g_converter, 'g_min', g_min)
        if g_max is None:
            raise ValueError('g_max cannot be established from g_converter')
        if g_min is None:
            raise ValueError('g_min cannot be established from g_converter')
        self.g_max = g_max
        self.g_min = g_min
        self.coeff_g_max_reference = self.g_max
        if coeff_dict is None:
            coeff_dict = {0.2: [0.00106879, 0.00081107][::-1], 2: [0.01129027418, 0.0112185391][::-1]}
        if read_dict is None:
            read_dict = {'K': 0.0277316483, 't_read': 1e-06}
        if decay_dict is None:
            decay_dict = {'mean': [-0.08900206], 'std': [0.04201137, 0.41183342]}
        if acceptance_range not in coeff_dict.keys():
            acceptance_range = min(coeff_dict.keys())
        self.coeff_dict = coeff_dict
        self.prog_noise_scale = prog_noise_scale
        self.read_noise_scale = read_noise_scale
        self.drift_scale = drift_scale
        self.decay_dict = decay_dict
        self.read_dict = read_dict
        self.acceptance_range = acceptance_range

    def _apply_poly(self, g_target: Tensor, coeff: List, scale: float=1.0):
        mat = 1
        sig_prog = coeff[0]
        for value in coeff[1:]:
            mat *= g_target
            sig_prog += mat * value
        sig_prog *= self.g_max / self.coeff_g_max_reference
        g_prog = g_target + sig_prog * randn_like(g_target) * scale
        return g_prog

    def apply_programming_noise_to_conductance(self, g_target: Tensor):
        min_key = self.acceptance_range if self.acceptance_range in self.coeff_dict.keys() else min(list(self.coeff_dict.keys()))
        return self._apply_poly(g_target, self.coeff_dict[min_key], self.prog_noise_scale)

    def generate_drift_coefficients(self, g_target: Tensor):
        return g_target

    def apply_drift_noise_to_conductance(self, g_prog: Tensor, drift_noise_param: Tensor, t_inference: float):
        if t_inference == 0:
            return g_prog
        g_mean = g_prog + self.decay_dict['mean'][0] * log(t_inference) * self.drift_scale
        sigma_relaxation = self.decay_dict['std'][0] * log(t_inference) + self.decay_dict['std'][1]
        g_drift = g_mean + randn_like(g_prog) * sigma_relaxation * self.drift_scale
        sigma_read = self.read_dict['K'] * log10(g_drift) * sqrt(log((t_inference + self.read_dict['t_read']) / (2 * self.read_dict['t_read'])))
        g_final = g_drift + sigma_read * randn_like(g_prog) * self.read_noise_scale
        return g_final.clamp(min=self.g_min, max=self.g_max)



@of("aihwkit.inference.compensation.base.BaseDriftCompensation")
class BaseDriftCompensation:
    def __init__(self):
        pass

    def init_baseline(self, tile: 'InferenceTileWithPeriphery'):
        forward_output = tile._forward_drift_readout_tensor(True, exact_reference=False)
        ref_value = self.readout(forward_output)
        return ref_value

    def apply(self, forward_output: Tensor, ref_value: Tensor):
        current_value = self.readout(forward_output)
        ratio = ref_value / current_value
        return ratio



@of("aihwkit.inference.compensation.drift.GlobalDriftCompensation")
class GlobalDriftCompensation:
    def readout(self, out_tensor: Tensor):
        return clamp(torch_abs(out_tensor).mean(), min=0.0001)

    def get_readout_tensor(self, in_size: int):
        return eye(in_size)



@of("aihwkit.inference.compensation.drift.GlobalDriftCompensationWithExactReference")
class GlobalDriftCompensationWithExactReference:
    def init_baseline(self, tile: 'InferenceTileWithPeriphery'):
        forward_output = tile._forward_drift_readout_tensor(True, exact_reference=True)
        ref_value = self.readout(forward_output)
        return ref_value



@of("aihwkit.inference.compensation.drift.PerColumnDriftCompensation")
class PerColumnDriftCompensation:
    def readout(self, out_tensor: Tensor):
        return clamp(torch_abs(out_tensor).mean(dim=0), min=0.0001)

    def get_readout_tensor(self, in_size: int):
        return eye(in_size)



@of("aihwkit.inference.utils.drift_analog_weights")
def drift_analog_weights(model: Module, t_inference: float=0.0):
    from aihwkit.nn.modules.base import AnalogLayerBase
    if model.training:
        raise ModuleError('drift_analog_weights can only be applied in  evaluation mode')
    for module in model.modules():
        if not isinstance(module, AnalogLayerBase):
            continue
        module.drift_analog_weights(t_inference)


@of("aihwkit.inference.utils.program_analog_weights")
def program_analog_weights(model: Module, noise_model: Optional['BaseNoiseModel']):
    from aihwkit.nn.modules.base import AnalogLayerBase
    if model.training:
        raise ModuleError('program_analog_weights can only be applied in evaluation mode')
    for module in model.modules():
        if not isinstance(module, AnalogLayerBase):
            continue
        module.program_analog_weights(noise_model=noise_model)


@of("aihwkit.inference.converter.base.BaseConductanceConverter")
class BaseConductanceConverter:
    def __eq__(self, other: object):
        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__



@of("aihwkit.inference.converter.conductance.SinglePairConductanceConverter")
class SinglePairConductanceConverter:
    def __init__(self, g_max: Optional[float]=None, g_min: Optional[float]=None):
        self.g_max = 25.0 if g_max is None else g_max
        self.g_min = 0.0 if g_min is None else g_min
        self.scale_ratio = None
        if self.g_max < 0.0:
            raise ValueError('g_max should be a positive value')
        if self.g_min < 0.0:
            raise ValueError('g_min should be a positive value')
        if self.g_min >= self.g_max:
            raise ValueError('g_min should be smaller than g_max')

    def convert_to_conductances(self, weights: Tensor):
        abs_max = torch_abs(weights).max()
        scale_ratio = (self.g_max - self.g_min) / abs_max.clamp(min=_ZERO_CLIP)
        scaled_weights = weights * scale_ratio
        conductances = [scaled_weights.clamp(min=0.0, max=self.g_max) + self.g_min, (-scaled_weights).clamp(min=0.0, max=self.g_max) + self.g_min]
        params = {'scale_ratio': scale_ratio}
        return (conductances, params)

    def convert_back_to_weights(self, conductances: List[Tensor], params: Dict):
        if len(conductances) != 2:
            raise ValueError('conductances must contain exactly two elements')
        if 'scale_ratio' not in params:
            raise ValueError('params do not contain scale_ratio')
        weights = (conductances[0] - self.g_min - (conductances[1] - self.g_min)) / params['scale_ratio']
        return weights



@of("aihwkit.inference.converter.conductance.NPairConductanceConverter")
class NPairConductanceConverter:
    def __init__(self, f_lst: List[float], g_max: Optional[float]=None, g_min: Optional[float]=None):
        if not isinstance(f_lst, list):
            raise ValueError('f_lst parameter must be a list of F factors')
        if max(f_lst) < 0.0:
            raise ValueError('f_lst parameter contains negative value')
        self.g_max = 25.0 if g_max is None else g_max
        self.g_min = 0.0 if g_min is None else g_min
        self.f_lst = f_lst
        self.scale_ratio = None
        if self.g_max < 0.0:
            raise ValueError('g_max should be a positive value')
        if self.g_min < 0.0:
            raise ValueError('g_min should be a positive value')
        if self.g_min >= self.g_max:
            raise ValueError('g_min should be smaller than g_max')

    def convert_to_conductances(self, weights: Tensor):
        max_weight_us = sum((f * (self.g_max - self.g_min) for f in self.f_lst))
        max_weight_unitless = torch_abs(weights).max().clamp(min=_ZERO_CLIP)
        scale_ratio = max_weight_us / max_weight_unitless
        weights_us = scale_ratio * weights
        lower_bound_us = 0.0
        conductances = []
        for f_factor in self.f_lst:
            conductances.append(((weights_us.clamp(min=0.0) - lower_bound_us) / f_factor + self.g_min).clamp(min=self.g_min, max=self.g_max))
            conductances.append((((-weights_us).clamp(min=0.0) - lower_bound_us) / f_factor + self.g_min).clamp(min=self.g_min, max=self.g_max))
            lower_bound_us += f_factor * (self.g_max - self.g_min)
        params = {'scale_ratio': scale_ratio, 'f_lst': self.f_lst}
        return (conductances, params)

    def convert_back_to_weights(self, conductances: List[Tensor], params: Dict):
        if 'f_lst' not in params:
            raise ValueError('params does not contain f_lst')
        if len(conductances) % 2 != 0:
            raise ValueError('unit cell must have an even number of conductances')
        if 'scale_ratio' not in params:
            raise ValueError('params does not contain scale_ratio')
        weights = zeros_like(conductances[0])
        for f_factor, (g_plus, g_minus) in zip(self.f_lst, zip(conductances[::2], conductances[1::2])):
            weights += f_factor * (g_plus - g_minus)
        return weights / params['scale_ratio']



@of("aihwkit.inference.converter.conductance.DualPairConductanceConverter")
class DualPairConductanceConverter:
    def __init__(self, f_lst: List[float], g_max: Optional[float]=None, g_min: Optional[float]=None):
        if len(f_lst) != 2:
            raise ValueError('f_lst parameter does not contain two values')
        super().__init__(f_lst=f_lst, g_max=g_max, g_min=g_min)



@of("aihwkit.inference.converter.conductance.CustomPairConductanceConverter")
class CustomPairConductanceConverter:
    def __init__(self, f_lst: List[float], g_lst: List[List[float]], g_max: Optional[float]=None, g_min: Optional[float]=None, invertibility_test: Optional[bool]=True):
        self.g_max = 25.0 if g_max is None else g_max
        self.g_min = 0.0 if g_min is None else g_min
        if not isinstance(g_lst, list):
            raise ValueError('g_lst parameter must be a list')
        if not all((isinstance(g, list) for g in g_lst)):
            raise ValueError('g_lst must be list of lists')
        if len(g_lst) % 2 != 0:
            raise ValueError('g_lst must have and even number of elements')
        if not isinstance(f_lst, list):
            raise ValueError('f_lst parameter must be a list')
        if 2 * len(f_lst) != len(g_lst):
            raise ValueError('must have one value in f_lst for every pair of values in g_lst')
        self.f_lst = f_lst
        self.g_lst = g_lst
        self.scale_ratio = None
        if self.g_max < 0.0:
            raise ValueError('g_max should be a positive value')
        if self.g_min < 0.0:
            raise ValueError('g_min should be a positive value')
        if self.g_min >= self.g_max:
            raise ValueError('g_min should be smaller than g_max')
        if invertibility_test:
            self.invertibility_test()

    def invertibility_test(self):
        test_weights = linspace(-1, 1, 5)
        conductances, params = self.convert_to_conductances(test_weights)
        return_weights = self.convert_back_to_weights(conductances, params)
        if not allclose(test_weights, return_weights, atol=0.0001):
            raise ArithmeticError('CustomPairConductanceConverter is not an invertible function')

    def convert_to_conductances(self, weights: Tensor):
        weights_us = zeros_like(Tensor(self.g_lst[0])).type_as(weights)
        for f_factor, (gp_lst, gm_lst) in zip(self.f_lst, zip(self.g_lst[::2], self.g_lst[1::2])):
            weights_us += f_factor * (Tensor(gp_lst) - Tensor(gm_lst)).type_as(weights)
        max_weight = torch_abs(weights).max()
        max_weight_us = torch_abs(weights_us).max()
        scale_ratio = max_weight_us / max_weight.clamp(min=_ZERO_CLIP)
        w_lst = (linspace(-max_weight_us, max_weight_us, len(self.g_lst[0])) / scale_ratio).tolist()
        conductances = []
        for f_factor, (gp_lst, gm_lst) in zip(self.f_lst, zip(self.g_lst[::2], self.g_lst[1::2])):
            conductances.append(from_numpy(interp(weights.cpu().numpy(), w_lst, gp_lst)).type_as(weights))
            conductances.append(from_numpy(interp(weights.cpu().numpy(), w_lst, gm_lst)).type_as(weights))
        params = {'scale_ratio': scale_ratio, 'f_lst': self.f_lst}
        return (conductances, params)

    def convert_back_to_weights(self, conductances: List[Tensor], params: Dict):
        if 'f_lst' not in params:
            raise ValueError('params does not contain f_lst')
        if not isinstance(params['f_lst'], list):
            raise TypeError('f_lst parameter must be a list of f factors')
        if 2 * len(params['f_lst']) != len(conductances):
            raise ValueError('must have one value in f_lst for every pair of conductances')
        weights_us = zeros_like(conductances[0])
        for f_factor, (g_plus, g_minus) in zip(params['f_lst'], zip(conductances[::2], conductances[1::2])):
            weights_us += f_factor * (g_plus - g_minus)
        return weights_us / params['scale_ratio']



@of("aihwkit.inference.converter.conductance.SingleDeviceConductanceConverter")
class SingleDeviceConductanceConverter:
    def __init__(self, g_max: Optional[float]=None, g_min: Optional[float]=None):
        self.g_max = 88.199997 if g_max is None else g_max
        self.g_min = 9.0 if g_min is None else g_min
        self.scale_ratio = None
        if self.g_max < 0.0:
            raise ValueError('g_max should be a positive value')
        if self.g_min < 0.0:
            raise ValueError('g_min should be a positive value')
        if self.g_min >= self.g_max:
            raise ValueError('g_min should be smaller than g_max')

    def convert_to_conductances(self, weights: Tensor):
        w_min = weights.min()
        w_max = weights.max()
        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min).clamp(min=_ZERO_CLIP)
        scaled_weights = (weights - w_min) * scale_ratio
        conductance = scaled_weights + self.g_min
        params = {'scale_ratio': scale_ratio, 'min': w_min}
        return (conductance, params)

    def convert_back_to_weights(self, conductances: Tensor, params: Dict):
        if 'scale_ratio' not in params:
            raise ValueError('params do not contain scale_ratio')
        if 'min' not in params:
            raise ValueError('params do not contain min')
        if isinstance(conductances, list):
            conductances = stack(conductances)
        weights = params['min'] + (conductances - self.g_min) / params['scale_ratio']
        return weights



@of("aihwkit.inference.converter.fusion.FusionConductanceConverter")
class FusionConductanceConverter:
    def __init__(self, g_max: int=40):
        if g_max < 10 or g_max > 40:
            raise ArgumentError('Specified fusion g_max value must be between 10 and 40.')
        self.g_max = g_max
        self.scale_ratio = None

    def convert_to_conductances(self, weights: Tensor):
        abs_max_per_col = weights.abs().max(dim=1).values
        scale_ratio_per_col = self.g_max / abs_max_per_col.clamp(min=_ZERO_CLIP)
        scaled_weights = weights * scale_ratio_per_col.unsqueeze(1)
        conductances = [abs(scaled_weights).clamp(min=0.0, max=self.g_max)]
        params = {'original_weights': weights}
        return (conductances, params)

    def convert_back_to_weights(self, conductances: List[Tensor], params: Dict):
        if len(conductances) != 1:
            raise ValueError('conductances must contain exactly 1 element')
        if 'original_weights' not in params:
            raise ValueError('params do not contain original_weights')
        weights = conductances[0] * sign(params['original_weights'])
        for col in range(weights.shape[0]):
            reg = LinearRegression().fit(weights[col].flatten().numpy().reshape(-1, 1), params['original_weights'][col].flatten().numpy().reshape(-1, 1))
            weights[col] *= reg.coef_[0][0]
        return weights



@of("aihwkit.inference.converter.wpo.downsample_weight_distribution")
def downsample_weight_distribution(weights: Tensor, shape: Size):
    return shuffle_weights(F.interpolate(sort(weights.flatten())[0].unsqueeze(0).unsqueeze(1), size=(shape.numel(),), mode='linear', align_corners=True).reshape(shape).detach())


@of("aihwkit.inference.converter.wpo.stop_criterion")
def stop_criterion(intermediate_result: OptimizeResult):
    print('\t(current loss - baseline loss) / baseline loss + loss margin = %0.10f (%s)' % (intermediate_result.fun, datetime.now()))
    if intermediate_result.fun < 0.0:
        raise StopIteration


@of("aihwkit.inference.converter.wpo.partition_parameters")
def partition_parameters(x: Tensor, d: Dict):
    f_lst = d['f_lst'].copy()
    cnts = f_lst.count(None)
    if cnts > 0:
        inds = [i for i, f in enumerate(f_lst) if f is None]
        f_lst_none = [x_f * (d['f_max'] - d['f_min']) + d['f_min'] for x_f in x[0:cnts]]
        for ind, f_val in zip(inds, f_lst_none):
            f_lst[ind] = f_val
        x = x[cnts:]
    x_k_w = 1.0 if d['use_max_kw'] else x[0]
    x_g = x if d['use_max_kw'] else x[1:]
    w_us_absolute_max = sum((f * (d['g_max'] - d['g_min']) for f in f_lst))
    lower_bound, upper_bound = (0.05 * w_us_absolute_max, w_us_absolute_max)
    w_us_max = x_k_w * (upper_bound - lower_bound) + lower_bound
    k_w = w_us_max / d['max_abs_weight_unitless']
    return (f_lst, k_w, x_g)


@of("aihwkit.inference.converter.wpo.reformat_x_g")
def reformat_x_g(x_g: Tensor, len_f_lst: int, symmetric: bool):
    g_len = int(len(x_g) / (2 * len_f_lst - 1))
    x_g_lst = [x_g[i:i + g_len].tolist() for i in range(0, len(x_g), g_len)]
    g_len = g_len * 2 - 1 if symmetric else g_len
    return (x_g_lst, g_len)


@of("aihwkit.inference.converter.wpo.loss_weights")
def loss_weights(model: AnalogLinear, t_steps: List[float], test_weights: Tensor, max_abs_weight_unitless: float, loss_baseline: float, loss_margin: float, get_baseline: bool=False):
    error_amplification = 10.0
    for layer in model.analog_layers():
        layer.set_weights(test_weights.to(test_weights.device).T.clone(), zeros(model.out_features).to(test_weights.device))
    nse = 0
    for t in t_steps:
        model.program_analog_weights()
        model.drift_analog_weights(t)
        effective_weights_lst = []
        for layer in model.analog_layers():
            for tile in layer.analog_tiles():
                effective_weights_lst.append(tile.alpha * tile.get_weights()[0].T)
        effective_weights = cat(effective_weights_lst, 0)
        nse += torch_sum((error_amplification * (effective_weights.to(test_weights.device) - test_weights) / max_abs_weight_unitless) ** 2)
    tnmse = nse / (model.in_features * model.out_features * len(t_steps))
    tnmse = tnmse.detach().cpu().numpy()
    tnmse = np.inf if isnan(tnmse) else tnmse
    return tnmse if get_baseline else (tnmse - loss_baseline) / loss_baseline + loss_margin


@of("aihwkit.inference.converter.wpo.shuffle_weights")
def shuffle_weights(weights: Tensor):
    weights_np = weights.detach().cpu().numpy()
    np.random.shuffle(weights_np)
    return from_numpy(weights_np)


@of("aihwkit.inference.converter.wpo.loss_rpu_config")
def loss_rpu_config(d: Dict):
    device = d['device']
    model = AnalogLinear(d['test_in_features'], d['test_out_features'], bias=False, rpu_config=deepcopy(d['rpu_config'])).eval().to(device)
    return loss_weights(deepcopy(model), d['t_steps'], d['weights_downsampled_unitless'], d['max_abs_weight_unitless'], d['loss_baseline'], d['loss_margin'], get_baseline=d['get_baseline'])


@of("aihwkit.inference.converter.wpo.span_of_remaining_pairs")
def span_of_remaining_pairs(span_of_each_pair: List, ind: int):
    remaining_span = 0 if ind > len(span_of_each_pair) else sum(span_of_each_pair[ind:])
    return remaining_span


@of("aihwkit.inference.converter.wpo.denormalize")
def denormalize(x: Tensor, d: Dict):
    f_lst, k_w, x_g = partition_parameters(x, d)
    w_discretized_us = (k_w * d['weights_discretized_unitless']).tolist()
    span_of_each_pair = [f * (d['g_max'] - d['g_min']) for f in f_lst]
    xg_lst, g_len = reformat_x_g(x_g, len(f_lst), d['symmetric'])
    if d['symmetric']:
        w_discretized_us = w_discretized_us[0:int(g_len / 2) + 1]
    g_lst = [[None for _ in range(g_len)] for _ in range(2 * len(f_lst))]
    for i, w_us in enumerate(w_discretized_us):
        w_us_center = w_us
        for j, f_factor in enumerate(f_lst):
            x_g = xg_lst[2 * j][i]
            x_delta_g = xg_lst[2 * j + 1][i] if j < len(f_lst) - 1 else 1.0
            span_of_current = f_factor * (d['g_max'] - d['g_min'])
            lower_bound = max(w_us_center - span_of_remaining_pairs(span_of_each_pair, j + 1), -span_of_current)
            upper_bound = min(w_us_center + span_of_remaining_pairs(span_of_each_pair, j + 1), span_of_current)
            f_delta_g = x_delta_g * (upper_bound - lower_bound) + lower_bound
            w_us_center = w_us_center - f_delta_g
            delta_g = f_delta_g / f_factor
            lower_bound = d['g_min'] + max(delta_g, 0) - d['g_err']
            upper_bound = d['g_max'] + min(delta_g, 0) + d['g_err']
            g_p = x_g * (upper_bound - lower_bound) + lower_bound
            g_p = max(min(g_p, d['g_max']), d['g_min'])
            g_m = g_p - delta_g
            g_m = max(min(g_m, d['g_max']), d['g_min'])
            g_lst[2 * j][i] = g_p
            g_lst[2 * j + 1][i] = g_m
            if d['symmetric']:
                g_lst[2 * j][g_len - i - 1] = g_m
                g_lst[2 * j + 1][g_len - i - 1] = g_p
    return (f_lst, g_lst)


@of("aihwkit.inference.converter.wpo.loss_fxn")
def loss_fxn(x: Tensor, *args: Union[bytes, bytearray]):
    d = deepcopy(pickle.loads(args[0]))
    f_lst, g_lst = denormalize(x.copy(), d)
    rpu_config = deepcopy(d['rpu_config'])
    rpu_config.noise_model.g_converter = CustomPairConductanceConverter(f_lst.copy(), g_lst.copy(), g_min=d['g_min'], g_max=d['g_max'], invertibility_test=False)
    d.update({'rpu_config': rpu_config})
    iterations = 1
    return sum((loss_rpu_config(deepcopy(d)) for _ in range(iterations))) / iterations


@of("aihwkit.inference.converter.wpo.WeightProgrammingOptimizer")
class WeightProgrammingOptimizer:
    def __init__(self, weights: Tensor, f_lst: List, rpu_config: Type[InferenceRPUConfig], t_steps: List, g_converter_baseline: Union[SinglePairConductanceConverter, DualPairConductanceConverter, CustomPairConductanceConverter], symmetric: bool=True, **kwargs: Optional[Any]):
        self.f_lst = f_lst
        self.rpu_config = deepcopy(rpu_config)
        self.mapping_saved = deepcopy(self.rpu_config.mapping)
        self.rpu_config.mapping.weight_scaling_omega = 0.0
        self.rpu_config.mapping.weight_scaling_columnwise = False
        self.rpu_config.mapping.learn_out_scaling = False
        self.rpu_config.mapping.out_scaling_columnwise = False
        self.noise_model = self.rpu_config.noise_model
        self.t_steps = t_steps
        self.symmetric = symmetric
        self.test_in_features = self.rpu_config.mapping.max_input_size
        self.nbins = 6
        self.test_out_features = 20
        self.g_err = 0.0
        self.f_min = 0.1
        self.f_max = 5.0
        self.use_max_kw = False
        self.loss_margin = 0.125
        self.baseline_iterations = 100
        self.callback = stop_criterion
        self.disp = True
        self.strategy = 'best1bin'
        self.popsize = 100
        self.maxiter = 200
        self.tol = 0.0
        self.atol = 0.02
        self.mutation = 0.1
        self.recombination = 0.3
        self.polish = True
        self.workers = -1
        self.seed = 100
        self.x_init = 'latinhypercube'
        self.device = 'cpu'
        if set(kwargs.keys()).issubset(self.__dict__.keys()):
            self.__dict__.update(kwargs)
        else:
            invalid_kwargs = set(kwargs.keys()).difference(self.__dict__.keys())
            raise Exception('The following argument(s) are not supported:\n %s' % invalid_kwargs)
        valid_g_converter_baselines = [SinglePairConductanceConverter, DualPairConductanceConverter, NPairConductanceConverter, CustomPairConductanceConverter]
        if not any((isinstance(g_converter_baseline, g_converter) for g_converter in valid_g_converter_baselines)):
            raise TypeError('g_converter_baseline = %s not supported' % type(g_converter_baseline).__name__)
        self.g_converter_baseline = deepcopy(g_converter_baseline)
        self.g_min = self.g_converter_baseline.g_min
        self.g_max = self.g_converter_baseline.g_max
        self.g_err = self.g_err * (self.g_max - self.g_min)
        g_lst_init = [[self.g_min] * (self.nbins * 2 - 1)] * 2 * len(f_lst)
        self.g_converter = CustomPairConductanceConverter(f_lst, g_lst_init, g_max=self.g_max, g_min=self.g_min, invertibility_test=False)
        self.get_baseline = False
        self.loss_baseline = float('inf')
        self.best_loss = float('inf')
        self.weights_downsampled_unitless = downsample_weight_distribution(weights.to(self.device).flatten(), Size([self.test_in_features, self.test_out_features]))
        self.max_abs_weight_unitless = torch_max(torch_abs(self.weights_downsampled_unitless))
        self.weights_discretized_unitless = linspace(-self.max_abs_weight_unitless, self.max_abs_weight_unitless, self.nbins * 2 - 1).to(self.device)

    def generate_hop_bounds(self):
        g_bnds = (0.0, 1.0)
        n_bnds = len(self.weights_discretized_unitless.tolist())
        if self.symmetric:
            n_bnds = ceil(n_bnds / 2)
        n_bnds *= 2 * len(self.f_lst) - 1
        n_bnds += sum((f is None for f in self.f_lst))
        n_bnds = n_bnds if self.use_max_kw else n_bnds + 1
        bnds = (g_bnds,) * n_bnds
        return bnds

    def get_loss_baseline(self):
        rpu_config = deepcopy(self.rpu_config)
        rpu_config.noise_model.g_converter = self.g_converter_baseline
        baseline_loss_params = deepcopy(self.__dict__)
        baseline_loss_params.update({'get_baseline': True, 'rpu_config': rpu_config})
        loss_baseline = sum((loss_rpu_config(deepcopy(baseline_loss_params)) for _ in range(self.baseline_iterations))) / self.baseline_iterations
        if self.disp:
            print('\n\tloss baseline = %f (%s)\n' % (loss_baseline, type(self.g_converter_baseline).__name__))
        return loss_baseline

    def differential_weight_evolution(self):
        bnds = self.generate_hop_bounds()
        if self.disp:
            print('\t\thypercube dimensions = %d \n' % len(bnds))
        res = differential_evolution(loss_fxn, bnds, args=(pickle.dumps(deepcopy(self.__dict__)),), callback=self.callback, strategy=self.strategy, maxiter=self.maxiter, popsize=self.popsize, tol=self.tol, atol=self.atol, mutation=self.mutation, recombination=self.recombination, seed=self.seed, disp=False, polish=self.polish, workers=self.workers, updating='deferred' if self.workers == -1 else 'immediate')
        success = True if res.fun < 0.0 else bool(res.success)
        self.best_loss = (res.fun - self.loss_margin) * self.loss_baseline + self.loss_baseline
        f_lst, g_lst = denormalize(res.x.copy(), self.__dict__.copy())
        optimal_g_converter = CustomPairConductanceConverter(f_lst=f_lst, g_lst=g_lst, g_min=self.g_min, g_max=self.g_max, invertibility_test=False)
        return (optimal_g_converter, success)

    def run_optimizer(self):
        self.loss_baseline = self.get_loss_baseline()
        optimal_g_converter, success = self.differential_weight_evolution()
        self.rpu_config.mapping = self.mapping_saved
        self.rpu_config.noise_model.g_converter = optimal_g_converter
        self.f_lst = self.rpu_config.noise_model.g_converter.f_lst
        return (optimal_g_converter, success)



@of("aihwkit.inference.calibration.calibration._calibration_pre_forward")
def _calibration_pre_forward(mod: Module, input_args: Tuple, calibration_type: InputRangeCalibrationType, cache_key: str, global_cache: Dict[str, Tensor], max_samples: int=1000, ir_quantile: float=0.99):
    x_input = input_args[0]
    x_input = x_input.reshape(-1, x_input.size(-1))
    x_input = x_input[~(x_input == 0.0).all(-1)]
    ir_params = mod.rpu_config.pre_post.input_range
    cache = global_cache[cache_key]
    if calibration_type in [InputRangeCalibrationType.CACHE_QUANTILE, InputRangeCalibrationType.MAX]:
        if calibration_type in [InputRangeCalibrationType.CACHE_QUANTILE]:
            cache = cat([cache, x_input.reshape(-1, x_input.size(-1)).clone().detach().cpu()])
            cache = cache[randperm(cache.size(0))[:max_samples]]
        elif cache.numel() == 0:
            cache = x_input.abs().max().detach()
        else:
            cache = max(cache, x_input.abs().max().detach())
    elif calibration_type in [InputRangeCalibrationType.MOVING_QUANTILE, InputRangeCalibrationType.MOVING_STD]:
        idx = mod.input_range_update_idx
        val = 0
        if calibration_type == InputRangeCalibrationType.MOVING_QUANTILE:
            val = (x_input.abs().max() if ir_quantile == 1.0 else x_input.flatten().quantile(ir_quantile)).item()
        elif idx < max_samples:
            std = x_input.std().item()
            val = ir_params.init_std_alpha * std
        if val > 0:
            old_val = mod.input_range.item()
            new_val = (old_val * idx + val) / (idx + 1)
            mod.set_input_range(new_val)
            mod.input_range_update_idx += 1
    else:
        raise ConfigError(f'Unknown InputRangeCalibrationType {calibration_type}')
    global_cache[cache_key] = cache


@of("aihwkit.inference.calibration.calibration.calibrate_input_ranges")
def calibrate_input_ranges(model: Module, calibration_type: InputRangeCalibrationType, dataloader: Iterator, quantile: float=0.99995, max_samples: int=1000, std_alpha: Optional[float]=None, force_all_layers: bool=True, verbose: bool=False):
    if calibration_type == InputRangeCalibrationType.NONE:
        return
    if not isinstance(model, AnalogLayerBase) or not isinstance(model, Module):
        raise ArgumentError('Expect an analog module')
    was_training = cast(Module, model).training
    model = cast(Module, model).eval()
    handles = []
    is_perfect_dic = {}
    cache = {}
    for tile_name, tile in model.named_analog_tiles():
        rpu_config = tile.rpu_config
        if not isinstance(rpu_config, PrePostProcessingRPU) or not hasattr(rpu_config, 'forward'):
            continue
        if not force_all_layers and (not rpu_config.pre_post.input_range.enable):
            continue
        if not rpu_config.pre_post.input_range.enable:
            rpu_config.pre_post.input_range.enable = True
            rpu_config.pre_post.input_range.learn_input_range = False
            tile.init_input_processing()
        rpu_config.pre_post.input_range.init_from_data = 0
        if std_alpha is not None:
            rpu_config.pre_post.input_range.init_std_alpha = std_alpha
        needs_set_state = False
        io_pars = rpu_config.forward
        if io_pars.noise_management != NoiseManagementType.NONE:
            if not force_all_layers:
                raise ConfigError('Noise management should be turned off for input_range calibration.')
            io_pars.noise_management = NoiseManagementType.NONE
            needs_set_state = True
        is_perfect_dic[tile_name] = io_pars.is_perfect
        if ('Max' in calibration_type.value or 'Cache' in calibration_type.value) and (not is_perfect_dic[tile_name]):
            rpu_config.forward.is_perfect = True
            needs_set_state = True
        if needs_set_state:
            tile_state = tile.__getstate__()
            tile_state[AnalogTileStateNames.RPU_CONFIG] = rpu_config
            tile.__setstate__(tile_state)
        cache[tile_name] = tensor([])
        hook = partial(_calibration_pre_forward, ir_quantile=quantile, calibration_type=calibration_type, cache_key=tile_name, global_cache=cache, max_samples=max_samples)
        handles.append(tile.register_forward_pre_hook(hook))
    progress_bar = tqdm if verbose else lambda x: x
    for args, kwargs in progress_bar(dataloader):
        model(*args, **kwargs)
    for handle in handles:
        handle.remove()
    for tile_name, tile in model.named_analog_tiles():
        rpu_config = tile.rpu_config
        if tile_name not in cache:
            continue
        if rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
            tile_state = tile.__getstate__()
            tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[tile_name]
            tile.__setstate__(tile_state)
        inputs = cache[tile_name]
        if inputs.numel() == 0 and calibration_type in [InputRangeCalibrationType.CACHE_QUANTILE, InputRangeCalibrationType.MAX]:
            if verbose:
                print(f'Warning: Tile {tile_name} cached inputs is empty')
            continue
        input_range = tile.input_range.item()
        if calibration_type == InputRangeCalibrationType.CACHE_QUANTILE:
            input_range = inputs.flatten().quantile(quantile).item()
        elif calibration_type == InputRangeCalibrationType.MAX:
            input_range = inputs.item()
        tile.set_input_range(input_range)
        if verbose:
            print(f'Calibrated tile {tile_name}: {input_range: .5f}.')
        rpu_config.pre_post.input_range.init_value = tile.input_range.item()
        rpu_config.pre_post.input_range.calibration_info = calibration_type.value
    if was_training:
        model = cast(Module, model).train()


@of("aihwkit.inference.calibration.calibration.calibrate_quantization_ranges")
def calibrate_quantization_ranges(model: Module, loader: DataLoader, max_num_batches: int=20):

    def pass_data_for_range_estimation(loader: DataLoader, model: Module, max_num_batches: int=20, dataloader_inp_idx: int=0) -> None:
        model.eval()
        device = next(model.parameters()).device
        for i, data in enumerate(loader):
            if i >= max_num_batches:
                break
            if isinstance(data, (tuple, list)):
                x = data[dataloader_inp_idx].to(device=device)
                model(x)
            else:
                x = {k: v.to(device=device) for k, v in data.items()}
                model(**x)
    estimate_ranges(model)
    pass_data_for_range_estimation(loader=loader, model=model, max_num_batches=max_num_batches)
    fix_ranges(model)
    fix_act_ranges(model)
    fix_weight_ranges(model)

value("aihwkit.inference.noise.pcm._ZERO_CLIP", 1e-7)
value("aihwkit.inference.noise.hermes._ZERO_CLIP", 1e-7)
value("aihwkit.inference.converter.conductance._ZERO_CLIP", 1e-7)
value("aihwkit.inference.converter.fusion._ZERO_CLIP", 1e-10)

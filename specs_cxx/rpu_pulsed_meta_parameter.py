@of("rpucuda.rpu_pulsed_meta_parameter.checkAndSetRes")
def checkAndSetRes(res, res_in, range_v):
    if res_in != 0:
        raise RuntimeError()
    res_in = checkRes(res)
    res = res_in * range_v
    return (res, res_in)


@of("rpucuda.rpu_pulsed_meta_parameter.checkRes")
def checkRes(res):
    r = max(0, res)
    return 1 / r if r > 1 else r


@of("rpucuda.rpu_pulsed_meta_parameter.DebugPulsedUpdateMetaParameter")
class DebugPulsedUpdateMetaParameter:
    scaleprob = None
    def calculateBlAB(self, BL, A, B, lr, weight_granularity):
        BL = self.desired_BL
        A = self.scaleprob
        B = self.scaleprob
        return (BL, A, B)



@of("rpucuda.rpu_pulsed_meta_parameter.IOMetaParameter")
class IOMetaParameter:
    _par_initialized = False
    is_perfect = False
    mv_type = AnalogMVType.OnePass
    w_noise_type = OutputWeightNoiseType.None_
    ir_drop = 0
    ir_drop_Gw_div_gmax = 571430
    v_offset_std = 0
    v_offset_w_min = 0
    r_series = 0
    r_series_max_total = numeric_limits.max()
    inp_asymmetry = 0
    out_asymmetry = 0
    w_read_asymmetry_dtod = 0
    inp_bound = 1
    inp_res = 1 / (m_pow(2, 7) - 2)
    _inp_res = 0
    inp_sto_round = False
    inp_noise = 0
    out_noise = 0.06
    out_noise_std = 0
    w_noise = 0
    out_bound = 12
    out_res = 1 / (m_pow(2, 9) - 2)
    _out_res = 0
    out_sto_round = False
    out_scale = 1
    out_nonlinearity = 0
    out_nonlinearity_std = 0
    slope_calibration = 0.5
    noise_management = NoiseManagementType.AbsMax
    nm_thres = 0
    nm_assumed_wmax = 0.6
    nm_decay = 0.001
    bound_management = BoundManagementType.None_
    bm_test_negative_bound = True
    max_bm_factor = 1000
    max_bm_res = 0.25
    def hasVoltageOffsets(self):
        return self.v_offset_std > 0 or self.r_series > 0 or len(self.v_offset_vec) > 0

    def isPerfect(self):
        return self.mv_type == AnalogMVType.Ideal or self.is_perfect

    def hasOutNonlinearity(self):
        return (self.out_nonlinearity > 0 or len(self.out_nonlinearity_vec) > 0) and (not self.isPerfect())

    def hasNLCalibration(self):
        return self.hasOutNonlinearity() or self.r_series > 0

    def initializeForForward(self, x_size, d_size):
        if not self._par_initialized:
            self._par_initialized = True
            if self.mv_type == AnalogMVType.Ideal:
                self.is_perfect = True
            if self.is_perfect:
                self.mv_type = AnalogMVType.Ideal
                return
            self.out_res, self._out_res = checkAndSetRes(self.out_res, self._out_res, 2 * self.out_bound)
            self.inp_res, self._inp_res = checkAndSetRes(self.inp_res, self._inp_res, 2 * self.inp_bound)
            if self.noise_management != NoiseManagementType.None_:
                if self.inp_bound != 1:
                    raise RuntimeError()
            else:
                self.nm_thres = 0
            if self.out_bound <= 0:
                self.out_bound = numeric_limits.infinity()
            if self.inp_bound <= 0:
                self.inp_bound = numeric_limits.infinity()
            if len(self.v_offset_vec) > 0 and len(self.v_offset_vec) != d_size:
                raise RuntimeError()
            if len(self.v_offset_vec) > 0 and len(self.v_offset_vec) != d_size:
                raise RuntimeError()

    def initializeForBackward(self, x_size, d_size):
        if not self._par_initialized:
            self._par_initialized = True
            if self.mv_type == AnalogMVType.Ideal:
                self.is_perfect = True
            if self.is_perfect:
                self.mv_type = AnalogMVType.Ideal
                return
            self.out_res, self._out_res = checkAndSetRes(self.out_res, self._out_res, 2 * self.out_bound)
            self.inp_res, self._inp_res = checkAndSetRes(self.inp_res, self._inp_res, 2 * self.inp_bound)
            if self.noise_management != NoiseManagementType.None_:
                if self.inp_bound != 1:
                    raise RuntimeError()
            else:
                self.nm_thres = 0
            if self.out_bound <= 0:
                self.out_bound = numeric_limits.infinity()
            if self.inp_bound <= 0:
                self.inp_bound = numeric_limits.infinity()
            if self.bound_management != BoundManagementType.None_:
                self.bound_management = BoundManagementType.None_
            if len(self.v_offset_vec) > 0 and len(self.v_offset_vec) != x_size:
                raise RuntimeError()



@of("rpucuda.rpu_pulsed_meta_parameter.PulsedUpdateMetaParameter")
class PulsedUpdateMetaParameter:
    fixed_BL = None
    desired_BL = None
    update_management = None
    update_bl_management = None
    um_grad_scale = None
    um_reg_scale = None
    sto_round = None
    d_sparsity = None
    _d_sparsity = None
    res = None
    x_res_implicit = None
    d_res_implicit = None
    _par_initialized = None
    _currently_tuning = None
    _debug_kernel_index = None
    pulse_type = None
    def needsImplicitPulses(self):
        return self.pulse_type == PulseType.DeterministicImplicit or self.pulse_type == PulseType.None_

    def initialize__1(self):
        if not self._par_initialized:
            self._par_initialized = True
            self.update_management = self.update_management or self.update_bl_management
            self.res = checkRes(self.res)
            self.x_res_implicit = checkRes(self.x_res_implicit)
            self.d_res_implicit = checkRes(self.d_res_implicit)
        if self._currently_tuning:
            raise RuntimeError()

    def getNK32Default(self):
        return self.desired_BL // 32 + 1

    def calculateBlAB(self, BL, A, B, lr, weight_granularity):
        if lr < 0:
            raise RuntimeError()
        elif lr == 0:
            A = 0
            B = 0
            BL = 0
            return (BL, A, B)
        if self.fixed_BL or self.update_bl_management:
            BL = self.desired_BL
            A = m_sqrt(lr / (weight_granularity * BL))
            B = A
        elif weight_granularity * self.desired_BL < lr:
            A = 1
            B = 1
            BL = max(to_int(to_int(m_ceil(lr / weight_granularity))), 1)
        else:
            BL = self.desired_BL
            A = m_sqrt(lr / (weight_granularity * BL))
            B = A
        return (BL, A, B)

    def performUpdateManagement(self, BL, A, B, max_BL, x_abs_max, d_abs_max, lr, weight_granularity):
        BL, A, B = self.calculateBlAB(BL, A, B, lr, weight_granularity)
        if lr > 0:
            if d_abs_max == 0 or x_abs_max == 0:
                A = 1
                B = 1
                BL = 0
                return (BL, A, B)
            if self.update_bl_management or self.update_management:
                x_val = x_abs_max
                d_val = self.um_grad_scale * d_abs_max
                k_val = lr * x_val * d_val / weight_granularity
                if self.update_bl_management:
                    BL = to_int(to_int(m_ceil(k_val)))
                    if BL > max_BL:
                        BL = max_BL
                    A = m_sqrt(lr / (weight_granularity * BL))
                    B = A
                if self.update_management:
                    if k_val > max_BL:
                        d_val *= max_BL / k_val
                    A *= m_sqrt(x_val / d_val)
                    B *= m_sqrt(d_val / x_val)
        return (BL, A, B)


@of("rpucuda.rpu_expstep_device.swap__7")
def swap__7(a, b):
    swap__21(a, b)
    a.initialized_, b.initialized_ = (b.initialized_, a.initialized_)


@of("rpucuda.rpu_expstep_device.update_once__4")
def update_once__4(w, w_apparent, sign, min_bound, max_bound, scale_down, scale_up, es_a, es_b, es_A_down, es_A_up, es_gamma_down, es_gamma_up, dw_min_std, write_noise_std, rng):
    b_diff = max_bound - min_bound
    if b_diff > 0:
        z = 2 * w / b_diff * es_a + es_b
        if sign > 0:
            y_down = max(1 - es_A_down * m_exp(es_gamma_down * -z), 0)
            w -= y_down * (1 + dw_min_std * rng.sampleGauss()) * scale_down
        else:
            y_up = max(1 - es_A_up * m_exp(es_gamma_up * z), 0)
            w += y_up * (1 + dw_min_std * rng.sampleGauss()) * scale_up
        w = min(w, max_bound)
        w = max(w, min_bound)
        if write_noise_std > 0:
            w_apparent = w + write_noise_std * rng.sampleGauss()
    return (w, w_apparent, sign, min_bound, max_bound, scale_down, scale_up)


@of("rpucuda.rpu_expstep_device.update_once_complex_noise")
def update_once_complex_noise(w, w_apparent, sign, min_bound, max_bound, scale_down, scale_up, es_a, es_b, es_A_down, es_A_up, es_gamma_down, es_gamma_up, dw_min_std, dw_min_std_add, dw_min_std_slope, write_noise_std, rng):
    b_diff = max_bound - min_bound
    if b_diff > 0:
        z = 2 * w / b_diff * es_a + es_b
        dw = None
        if sign > 0:
            y_down = max(1 - es_A_down * m_exp(es_gamma_down * -z), 0)
            dw = -y_down * scale_down
        else:
            y_up = max(1 - es_A_up * m_exp(es_gamma_up * z), 0)
            dw = y_up * scale_up
        dw_std = dw_min_std * (abs(dw) + dw_min_std_add + dw_min_std_slope * abs(w))
        w += dw + dw_std * rng.sampleGauss()
        w = min(w, max_bound)
        w = max(w, min_bound)
        if write_noise_std > 0:
            w_apparent = w + write_noise_std * rng.sampleGauss()
    return (w, w_apparent, sign, min_bound, max_bound, scale_down, scale_up)


@of("rpucuda.rpu_expstep_device.ExpStepRPUDevice")
class ExpStepRPUDevice:
    initialized_ = False
    def ctor__1(self):
        pass

    def ctor__2(self, x_size, d_size):
        PulsedRPUDevice.ctor__2(self, x_size, d_size)
        self.initialize__1()

    def ctor__3(self, x_size, d_size, par, rng):
        PulsedRPUDevice.ctor__2(self, x_size, d_size)
        self.initialize__1()
        self.populate__6(par, rng)

    def copyInvertDeviceParameter(self, rpu_device):
        PulsedRPUDevice.copyInvertDeviceParameter(self, rpu_device)
        rpu = rpu_device
        if rpu is None:
            raise RuntimeError()

    def clone(self):
        return make_ExpStepRPUDevice(self)

    def initialize__1(self):
        if not self.initialized_:
            self.initialized_ = True

    def populate__6(self, p, rng):
        PulsedRPUDevice.populate__16(self, p, rng)

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def getDPNames(self, names):
        PulsedRPUDevice.getDPNames(self, names)

    def getDeviceParameter__2(self, weights, data_ptrs):
        PulsedRPUDevice.getDeviceParameter__2(self, weights, data_ptrs)
        names = make_vector_string()
        all_names = make_vector_string()
        self.getDPNames(all_names)
        if len(all_names) != len(data_ptrs):
            raise RuntimeError()
        PulsedRPUDevice.getDPNames(self, names)

    def setDeviceParameter__2(self, out_weights, data_ptrs):
        PulsedRPUDevice.setDeviceParameter__2(self, out_weights, data_ptrs)
        names = make_vector_string()
        PulsedRPUDevice.getDPNames(self, names)
        self.onSetDeviceParameter(out_weights)

    def doSparseUpdate(self, weights, i, x_signed_indices, x_count, d_sign, rng):
        par = self.getPar()
        scale_down = self.w_scale_down_[i]
        scale_up = self.w_scale_up_[i]
        w = self.w_persistent_[i] if par.usesPersistentWeight() else weights[i]
        w_apparent = weights[i]
        min_bound = self.w_min_bound_[i]
        max_bound = self.w_max_bound_[i]
        write_noise_std = par.getScaledWriteNoise()
        if par.hasComplexNoise():
            for jj in range(x_count):
                j_signed = x_signed_indices[jj]
                sign = -d_sign if j_signed < 0 else d_sign
                j = -j_signed - 1 if j_signed < 0 else j_signed - 1
                w[j], w_apparent[j], sign, min_bound[j], max_bound[j], scale_down[j], scale_up[j] = update_once_complex_noise(w[j], w_apparent[j], sign, min_bound[j], max_bound[j], scale_down[j], scale_up[j], par.es_a, par.es_b, par.es_A_down, par.es_A_up, par.es_gamma_down, par.es_gamma_up, par.dw_min_std, par.dw_min_std_add, par.dw_min_std_slope, write_noise_std, rng)
        else:
            for jj in range(x_count):
                j_signed = x_signed_indices[jj]
                sign = -d_sign if j_signed < 0 else d_sign
                j = -j_signed - 1 if j_signed < 0 else j_signed - 1
                w[j], w_apparent[j], sign, min_bound[j], max_bound[j], scale_down[j], scale_up[j] = update_once__4(w[j], w_apparent[j], sign, min_bound[j], max_bound[j], scale_down[j], scale_up[j], par.es_a, par.es_b, par.es_A_down, par.es_A_up, par.es_gamma_down, par.es_gamma_up, par.dw_min_std, write_noise_std, rng)

    def doDenseUpdate(self, weights, coincidences, rng):
        par = self.getPar()
        scale_down = self.w_scale_down_[0]
        scale_up = self.w_scale_up_[0]
        w = self.w_persistent_[0] if par.usesPersistentWeight() else weights[0]
        w_apparent = weights[0]
        min_bound = self.w_min_bound_[0]
        max_bound = self.w_max_bound_[0]
        write_noise_std = par.getScaledWriteNoise()
        if par.hasComplexNoise():
            _total_size = self.x_size_ * self.d_size_
            for j in range(_total_size):
                c_signed = coincidences[j]
                if c_signed == 0:
                    continue
                ac = abs(c_signed)
                sign = 1 if c_signed > 0 else -1
                for i_c in range(ac):
                    w[j], w_apparent[j], sign, min_bound[j], max_bound[j], scale_down[j], scale_up[j] = update_once_complex_noise(w[j], w_apparent[j], sign, min_bound[j], max_bound[j], scale_down[j], scale_up[j], par.es_a, par.es_b, par.es_A_down, par.es_A_up, par.es_gamma_down, par.es_gamma_up, par.dw_min_std, par.dw_min_std_add, par.dw_min_std_slope, write_noise_std, rng)
        else:
            _total_size = self.x_size_ * self.d_size_
            for j in range(_total_size):
                c_signed = coincidences[j]
                if c_signed == 0:
                    continue
                ac = abs(c_signed)
                sign = 1 if c_signed > 0 else -1
                for i_c in range(ac):
                    w[j], w_apparent[j], sign, min_bound[j], max_bound[j], scale_down[j], scale_up[j] = update_once__4(w[j], w_apparent[j], sign, min_bound[j], max_bound[j], scale_down[j], scale_up[j], par.es_a, par.es_b, par.es_A_down, par.es_A_up, par.es_gamma_down, par.es_gamma_up, par.dw_min_std, write_noise_std, rng)



@of("rpucuda.rpu_expstep_device.ExpStepRPUDeviceMetaParameter")
class ExpStepRPUDeviceMetaParameter:
    es_A_up = None
    es_A_down = None
    es_gamma_up = None
    es_gamma_down = None
    es_a = None
    es_b = None
    dw_min_std_add = None
    dw_min_std_slope = None
    def hasComplexNoise(self):
        return self.dw_min_std > 0 and (self.dw_min_std_slope != 0 or self.dw_min_std_add != 0)


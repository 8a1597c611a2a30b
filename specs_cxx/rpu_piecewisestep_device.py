@of("rpucuda.rpu_piecewisestep_device.swap__17")
def swap__17(a, b):
    swap__21(a, b)
    a.initialized_, b.initialized_ = (b.initialized_, a.initialized_)


@of("rpucuda.rpu_piecewisestep_device.update_once__1")
def update_once__1(w, w_apparent, sign, scale_down, scale_up, min_bound, max_bound, piecewise_up_vec, piecewise_down_vec, dw_min_std, write_noise_std, rng):
    n_sections = len(piecewise_up_vec) - 1
    if n_sections <= 0 or max_bound <= min_bound:
        if sign > 0:
            interpolated_down = piecewise_down_vec[0] * scale_down if len(piecewise_down_vec) > 0 else scale_down
            w -= interpolated_down * (1 + dw_min_std * rng.sampleGauss())
        else:
            interpolated_up = piecewise_up_vec[0] * scale_up if len(piecewise_up_vec) > 0 else scale_up
            w += interpolated_up * (1 + dw_min_std * rng.sampleGauss())
    else:
        w_scaled = max((w - min_bound) / (max_bound - min_bound) * n_sections, 0)
        w_index = min(to_int(to_int(m_floor(w_scaled))), n_sections - 1)
        t = min(w_scaled - w_index, 1)
        t1 = 1 - t
        if sign > 0:
            interpolated_down = scale_down * (t1 * piecewise_down_vec[w_index] + t * piecewise_down_vec[w_index + 1])
            w -= interpolated_down * (1 + dw_min_std * rng.sampleGauss())
        else:
            interpolated_up = scale_up * (t1 * piecewise_up_vec[w_index] + t * piecewise_up_vec[w_index + 1])
            w += interpolated_up * (1 + dw_min_std * rng.sampleGauss())
    w = max(w, min_bound)
    w = min(w, max_bound)
    if write_noise_std > 0:
        w_apparent = w + write_noise_std * rng.sampleGauss()
    return (w, w_apparent)


@of("rpucuda.rpu_piecewisestep_device.PiecewiseStepRPUDevice")
class PiecewiseStepRPUDevice:
    initialized_ = False
    def ctor__1(self):
        pass

    def ctor__2(self, x_size, d_size):
        PulsedRPUDevice.ctor__2(self, x_size, d_size)
        self.initialize__1()

    def ctor__3(self, x_size, d_size, par, rng):
        PulsedRPUDevice.ctor__2(self, x_size, d_size)
        self.initialize__1()
        self.populate__13(par, rng)

    def copyInvertDeviceParameter(self, rpu_device):
        PulsedRPUDevice.copyInvertDeviceParameter(self, rpu_device)
        rpu = rpu_device
        if rpu is None:
            raise RuntimeError()

    def clone(self):
        return make_PiecewiseStepRPUDevice(self)

    def initialize__1(self):
        if not self.initialized_:
            self.initialized_ = True

    def populate__13(self, p, rng):
        PulsedRPUDevice.populate__16(self, p, rng)

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def getDPNames(self, names):
        PulsedRPUDevice.getDPNames(self, names)

    def getDeviceParameter__2(self, weights, data_ptrs):
        PulsedRPUDevice.getDeviceParameter__2(self, weights, data_ptrs)
        names = make_vector_string()
        all_names = make_vector_string()
        self.getDPNames(all_names)
        if len(all_names) != len(data_ptrs):
            raise RuntimeError()
        PulsedRPUDevice.getDPNames(self, names)

    def setDeviceParameter__2(self, out_weights, data_ptrs):
        PulsedRPUDevice.setDeviceParameter__2(self, out_weights, data_ptrs)
        names = make_vector_string()
        PulsedRPUDevice.getDPNames(self, names)
        self.onSetDeviceParameter(out_weights)

    def doSparseUpdate(self, weights, i, x_signed_indices, x_count, d_sign, rng):
        par = self.getPar()
        scale_down = self.w_scale_down_[i]
        scale_up = self.w_scale_up_[i]
        w = self.w_persistent_[i] if par.usesPersistentWeight() else weights[i]
        w_apparent = weights[i]
        min_bound = self.w_min_bound_[i]
        max_bound = self.w_max_bound_[i]
        write_noise_std = par.getScaledWriteNoise()
        for jj in range(x_count):
            j_signed = x_signed_indices[jj]
            sign = -d_sign if j_signed < 0 else d_sign
            j = -j_signed - 1 if j_signed < 0 else j_signed - 1
            w[j], w_apparent[j] = update_once__1(w[j], w_apparent[j], sign, scale_down[j], scale_up[j], min_bound[j], max_bound[j], par.piecewise_up_vec, par.piecewise_down_vec, par.dw_min_std, write_noise_std, rng)

    def doDenseUpdate(self, weights, coincidences, rng):
        par = self.getPar()
        scale_down = self.w_scale_down_[0]
        scale_up = self.w_scale_up_[0]
        w = self.w_persistent_[0] if par.usesPersistentWeight() else weights[0]
        w_apparent = weights[0]
        min_bound = self.w_min_bound_[0]
        max_bound = self.w_max_bound_[0]
        write_noise_std = par.getScaledWriteNoise()
        _total_size = self.x_size_ * self.d_size_
        for j in range(_total_size):
            c_signed = coincidences[j]
            if c_signed == 0:
                continue
            ac = abs(c_signed)
            sign = 1 if c_signed > 0 else -1
            for i_c in range(ac):
                w[j], w_apparent[j] = update_once__1(w[j], w_apparent[j], sign, scale_down[j], scale_up[j], min_bound[j], max_bound[j], par.piecewise_up_vec, par.piecewise_down_vec, par.dw_min_std, write_noise_std, rng)



@of("rpucuda.rpu_piecewisestep_device.PiecewiseStepRPUDeviceMetaParameter")
class PiecewiseStepRPUDeviceMetaParameter:
    piecewise_up_vec = None
    piecewise_down_vec = None

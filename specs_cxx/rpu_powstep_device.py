@of("rpucuda.rpu_powstep_device.swap__18")
def swap__18(a, b):
    swap__21(a, b)
    a.initialized_, b.initialized_ = (b.initialized_, a.initialized_)
    a.w_gamma_up_, b.w_gamma_up_ = (b.w_gamma_up_, a.w_gamma_up_)
    a.w_gamma_down_, b.w_gamma_down_ = (b.w_gamma_down_, a.w_gamma_down_)


@of("rpucuda.rpu_powstep_device.update_once__2")
def update_once__2(w, w_apparent, sign, scale_down, scale_up, gamma_down, gamma_up, min_bound, max_bound, dw_min_std, write_noise_std, rng):
    range_v = max_bound - min_bound
    if range_v == 0:
        return (w, w_apparent, sign, scale_down, scale_up, gamma_down, gamma_up, min_bound, max_bound)
    if sign > 0:
        w -= scale_down * m_pow((w - min_bound) / range_v, gamma_down) * (1 + dw_min_std * rng.sampleGauss())
    else:
        w += scale_up * m_pow((max_bound - w) / range_v, gamma_up) * (1 + dw_min_std * rng.sampleGauss())
    w = max(w, min_bound)
    w = min(w, max_bound)
    if write_noise_std > 0:
        w_apparent = w + write_noise_std * rng.sampleGauss()
    return (w, w_apparent, sign, scale_down, scale_up, gamma_down, gamma_up, min_bound, max_bound)


@of("rpucuda.rpu_powstep_device.PowStepRPUDevice")
class PowStepRPUDevice:
    initialized_ = False
    w_gamma_up_ = None
    w_gamma_down_ = None
    def ctor__1(self):
        pass

    def ctor__2(self, x_size, d_size):
        PulsedRPUDevice.ctor__2(self, x_size, d_size)
        self.initialize__1()

    def ctor__3(self, x_size, d_size, par, rng):
        PulsedRPUDevice.ctor__2(self, x_size, d_size)
        self.initialize__1()
        self.populate__14(par, rng)

    def copyInvertDeviceParameter(self, rpu_device):
        PulsedRPUDevice.copyInvertDeviceParameter(self, rpu_device)
        rpu = rpu_device
        if rpu is None:
            raise RuntimeError()
        gamma_down = rpu.getGammaDown()
        gamma_up = rpu.getGammaUp()
        for j in range(self.x_size_):
            for i in range(self.d_size_):
                self.w_gamma_down_[i][j] = gamma_up[i][j]
                self.w_gamma_up_[i][j] = gamma_down[i][j]

    def clone(self):
        return make_PowStepRPUDevice(self)

    def initialize__1(self):
        if not self.initialized_:
            x_sz = self.x_size_
            d_sz = self.d_size_
            self.w_gamma_down_ = Array_2D_Get(d_sz, x_sz)
            self.w_gamma_up_ = Array_2D_Get(d_sz, x_sz)
            for j in range(x_sz):
                for i in range(d_sz):
                    self.w_gamma_up_[i][j] = 0
                    self.w_gamma_down_[i][j] = 0
            self.initialized_ = True

    def populate__14(self, p, rng):
        PulsedRPUDevice.populate__16(self, p, rng)
        par = self.getPar()
        gamma = par.ps_gamma
        gain_std = par.ps_gamma_dtod
        up_down_std = par.ps_gamma_up_down_dtod
        up_down = par.ps_gamma_up_down
        up_bias = min(0, up_down)
        down_bias = -up_down if up_down > 0 else 0
        for i in range(self.d_size_):
            for j in range(self.x_size_):
                gain = 1 + gain_std * rng.sampleGauss()
                r = up_down_std * rng.sampleGauss()
                self.w_gamma_up_[i][j] = (up_bias + gain + r) * gamma
                self.w_gamma_down_[i][j] = (down_bias + gain - r) * gamma
                if par.enforce_consistency:
                    self.w_gamma_up_[i][j] = abs(self.w_gamma_up_[i][j])
                    self.w_gamma_down_[i][j] = abs(self.w_gamma_down_[i][j])

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def getDPNames(self, names):
        PulsedRPUDevice.getDPNames(self, names)
        names.push_back('gamma_up')
        names.push_back('gamma_down')

    def getDeviceParameter__2(self, weights, data_ptrs):
        PulsedRPUDevice.getDeviceParameter__2(self, weights, data_ptrs)
        names = make_vector_string()
        all_names = make_vector_string()
        self.getDPNames(all_names)
        if len(all_names) != len(data_ptrs):
            raise RuntimeError()
        PulsedRPUDevice.getDPNames(self, names)
        n_prev = len(names)
        size = self.x_size_ * self.d_size_
        for i in range(size):
            data_ptrs[n_prev][i] = self.w_gamma_up_[0][i]
            data_ptrs[n_prev + 1][i] = self.w_gamma_down_[0][i]

    def setDeviceParameter__2(self, out_weights, data_ptrs):
        PulsedRPUDevice.setDeviceParameter__2(self, out_weights, data_ptrs)
        names = make_vector_string()
        PulsedRPUDevice.getDPNames(self, names)
        n_prev = len(names)
        size = self.x_size_ * self.d_size_
        for i in range(size):
            self.w_gamma_up_[0][i] = data_ptrs[n_prev][i]
            self.w_gamma_down_[0][i] = data_ptrs[n_prev + 1][i]
        self.onSetDeviceParameter(out_weights)

    def printDP(self, x_count, d_count):
        if x_count < 0 or x_count > self.x_size_:
            x_count = self.x_size_
        if d_count < 0 or d_count > self.d_size_:
            d_count = self.d_size_
        persist_if = self.getPar().usesPersistentWeight()
        for i in range(d_count):
            for j in range(x_count):
                cout.precision(5)
                cout.precision(10)
                cout.precision(6)

    def getGammaUp(self):
        return self.w_gamma_up_

    def getGammaDown(self):
        return self.w_gamma_down_

    def doSparseUpdate(self, weights, i, x_signed_indices, x_count, d_sign, rng):
        par = self.getPar()
        scale_down = self.w_scale_down_[i]
        scale_up = self.w_scale_up_[i]
        gamma_down = self.w_gamma_down_[i]
        gamma_up = self.w_gamma_up_[i]
        w = self.w_persistent_[i] if par.usesPersistentWeight() else weights[i]
        w_apparent = weights[i]
        min_bound = self.w_min_bound_[i]
        max_bound = self.w_max_bound_[i]
        write_noise_std = par.getScaledWriteNoise()
        for jj in range(x_count):
            j_signed = x_signed_indices[jj]
            sign = -d_sign if j_signed < 0 else d_sign
            j = -j_signed - 1 if j_signed < 0 else j_signed - 1
            w[j], w_apparent[j], sign, scale_down[j], scale_up[j], gamma_down[j], gamma_up[j], min_bound[j], max_bound[j] = update_once__2(w[j], w_apparent[j], sign, scale_down[j], scale_up[j], gamma_down[j], gamma_up[j], min_bound[j], max_bound[j], par.dw_min_std, write_noise_std, rng)

    def doDenseUpdate(self, weights, coincidences, rng):
        par = self.getPar()
        scale_down = self.w_scale_down_[0]
        scale_up = self.w_scale_up_[0]
        gamma_down = self.w_gamma_down_[0]
        gamma_up = self.w_gamma_up_[0]
        w = self.w_persistent_[0] if par.usesPersistentWeight() else weights[0]
        w_apparent = weights[0]
        min_bound = self.w_min_bound_[0]
        max_bound = self.w_max_bound_[0]
        write_noise_std = par.getScaledWriteNoise()
        _total_size = self.x_size_ * self.d_size_
        for j in range(_total_size):
            c_signed = coincidences[j]
            if c_signed == 0:
                continue
            ac = abs(c_signed)
            sign = 1 if c_signed > 0 else -1
            for i_c in range(ac):
                w[j], w_apparent[j], sign, scale_down[j], scale_up[j], gamma_down[j], gamma_up[j], min_bound[j], max_bound[j] = update_once__2(w[j], w_apparent[j], sign, scale_down[j], scale_up[j], gamma_down[j], gamma_up[j], min_bound[j], max_bound[j], par.dw_min_std, write_noise_std, rng)



@of("rpucuda.rpu_powstep_device.PowStepRPUDeviceMetaParameter")
class PowStepRPUDeviceMetaParameter:
    ps_gamma = None
    ps_gamma_dtod = None
    ps_gamma_up_down = None
    ps_gamma_up_down_dtod = None

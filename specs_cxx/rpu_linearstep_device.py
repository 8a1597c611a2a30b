@of("rpucuda.rpu_linearstep_device.swap__11")
def swap__11(a, b):
    swap__21(a, b)
    a.initialized_, b.initialized_ = (b.initialized_, a.initialized_)
    a.w_slope_up_, b.w_slope_up_ = (b.w_slope_up_, a.w_slope_up_)
    a.w_slope_down_, b.w_slope_down_ = (b.w_slope_down_, a.w_slope_down_)


@of("rpucuda.rpu_linearstep_device.update_once_add__2")
def update_once_add__2(w, w_apparent, sign, scale_down, scale_up, slope_down, slope_up, min_bound, max_bound, dw_min_std, write_noise_std, rng):
    if sign > 0:
        w -= slope_down * w + scale_down * (1 + dw_min_std * rng.sampleGauss())
    else:
        w += slope_up * w + scale_up * (1 + dw_min_std * rng.sampleGauss())
    w = max(w, min_bound)
    w = min(w, max_bound)
    if write_noise_std > 0:
        w_apparent = w + write_noise_std * rng.sampleGauss()
    return (w, w_apparent, sign, scale_down, scale_up, slope_down, slope_up, min_bound, max_bound)


@of("rpucuda.rpu_linearstep_device.update_once_mult__2")
def update_once_mult__2(w, w_apparent, sign, scale_down, scale_up, slope_down, slope_up, min_bound, max_bound, dw_min_std, write_noise_std, rng):
    if sign > 0:
        w -= (slope_down * w + scale_down) * (1 + dw_min_std * rng.sampleGauss())
    else:
        w += (slope_up * w + scale_up) * (1 + dw_min_std * rng.sampleGauss())
    w = max(w, min_bound)
    w = min(w, max_bound)
    if write_noise_std > 0:
        w_apparent = w + write_noise_std * rng.sampleGauss()
    return (w, w_apparent, sign, scale_down, scale_up, slope_down, slope_up, min_bound, max_bound)


@of("rpucuda.rpu_linearstep_device.LinearStepRPUDevice")
class LinearStepRPUDevice:
    initialized_ = False
    w_slope_up_ = None
    w_slope_down_ = None
    def ctor__1(self):
        pass

    def ctor__2(self, x_size, d_size):
        PulsedRPUDevice.ctor__2(self, x_size, d_size)
        self.initialize__1()

    def ctor__3(self, x_size, d_size, par, rng):
        PulsedRPUDevice.ctor__2(self, x_size, d_size)
        self.initialize__1()
        self.populate__8(par, rng)

    def copyInvertDeviceParameter(self, rpu_device):
        PulsedRPUDevice.copyInvertDeviceParameter(self, rpu_device)
        rpu = rpu_device
        if rpu is None:
            raise RuntimeError()
        slope_down = rpu.getSlopeDown()
        slope_up = rpu.getSlopeUp()
        for j in range(self.x_size_):
            for i in range(self.d_size_):
                self.w_slope_down_[i][j] = -slope_up[i][j]
                self.w_slope_up_[i][j] = -slope_down[i][j]

    def clone(self):
        return make_LinearStepRPUDevice(self)

    def initialize__1(self):
        if not self.initialized_:
            x_sz = self.x_size_
            d_sz = self.d_size_
            self.w_slope_down_ = Array_2D_Get(d_sz, x_sz)
            self.w_slope_up_ = Array_2D_Get(d_sz, x_sz)
            for j in range(x_sz):
                for i in range(d_sz):
                    self.w_slope_up_[i][j] = 0
                    self.w_slope_down_[i][j] = 0
            self.initialized_ = True

    def populate__8(self, p, rng):
        PulsedRPUDevice.populate__16(self, p, rng)
        par = self.getPar()
        if (par.ls_reverse_up or par.ls_reverse_down) and (not par.ls_mult_noise):
            raise RuntimeError()
        for i in range(self.d_size_):
            for j in range(self.x_size_):
                diff_slope_at_bound_up = par.ls_decrease_up + par.ls_decrease_up_dtod * rng.sampleGauss()
                diff_slope_at_bound_down = par.ls_decrease_down + par.ls_decrease_down_dtod * rng.sampleGauss()
                if not par.ls_allow_increasing_slope:
                    diff_slope_at_bound_up = abs(diff_slope_at_bound_up)
                    diff_slope_at_bound_down = abs(diff_slope_at_bound_down)
                w_ref_up = None
                w_ref_down = None
                if par.ls_mean_bound_reference:
                    w_ref_up = par.w_min - par.ls_reverse_offset if par.ls_reverse_up else par.w_max
                    w_ref_down = par.w_max + par.ls_reverse_offset if par.ls_reverse_down else par.w_min
                else:
                    w_ref_up = self.w_min_bound_[i][j] - par.ls_reverse_offset if par.ls_reverse_up else self.w_max_bound_[i][j]
                    w_ref_down = self.w_max_bound_[i][j] + par.ls_reverse_offset if par.ls_reverse_down else self.w_min_bound_[i][j]
                if w_ref_up != 0:
                    self.w_slope_up_[i][j] = -diff_slope_at_bound_up * self.w_scale_up_[i][j] / w_ref_up
                else:
                    self.w_slope_up_[i][j] = 0
                if w_ref_down != 0:
                    self.w_slope_down_[i][j] = -diff_slope_at_bound_down * self.w_scale_down_[i][j] / w_ref_down
                else:
                    self.w_slope_down_[i][j] = 0

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def getDPNames(self, names):
        PulsedRPUDevice.getDPNames(self, names)
        names.push_back('slope_up')
        names.push_back('slope_down')

    def getDeviceParameter__2(self, weights, data_ptrs):
        PulsedRPUDevice.getDeviceParameter__2(self, weights, data_ptrs)
        names = make_vector_string()
        all_names = make_vector_string()
        self.getDPNames(all_names)
        if len(all_names) != len(data_ptrs):
            raise RuntimeError()
        PulsedRPUDevice.getDPNames(self, names)
        n_prev = len(names)
        size = self.x_size_ * self.d_size_
        for i in range(size):
            data_ptrs[n_prev][i] = self.w_slope_up_[0][i]
            data_ptrs[n_prev + 1][i] = self.w_slope_down_[0][i]

    def setDeviceParameter__2(self, out_weights, data_ptrs):
        PulsedRPUDevice.setDeviceParameter__2(self, out_weights, data_ptrs)
        names = make_vector_string()
        PulsedRPUDevice.getDPNames(self, names)
        n_prev = len(names)
        size = self.x_size_ * self.d_size_
        for i in range(size):
            self.w_slope_up_[0][i] = data_ptrs[n_prev][i]
            self.w_slope_down_[0][i] = data_ptrs[n_prev + 1][i]
        self.onSetDeviceParameter(out_weights)

    def printDP(self, x_count, d_count):
        if x_count < 0 or x_count > self.x_size_:
            x_count = self.x_size_
        if d_count < 0 or d_count > self.d_size_:
            d_count = self.d_size_
        persist_if = self.getPar().usesPersistentWeight()
        for i in range(d_count):
            for j in range(x_count):
                cout.precision(5)
                cout.precision(10)
                cout.precision(6)

    def getSlopeUp(self):
        return self.w_slope_up_

    def getSlopeDown(self):
        return self.w_slope_down_

    def doSparseUpdate(self, weights, i, x_signed_indices, x_count, d_sign, rng):
        par = self.getPar()
        scale_down = self.w_scale_down_[i]
        scale_up = self.w_scale_up_[i]
        slope_down = self.w_slope_down_[i]
        slope_up = self.w_slope_up_[i]
        w = self.w_persistent_[i] if par.usesPersistentWeight() else weights[i]
        w_apparent = weights[i]
        min_bound = self.w_min_bound_[i]
        max_bound = self.w_max_bound_[i]
        write_noise_std = par.getScaledWriteNoise()
        if par.ls_mult_noise:
            for jj in range(x_count):
                j_signed = x_signed_indices[jj]
                sign = -d_sign if j_signed < 0 else d_sign
                j = -j_signed - 1 if j_signed < 0 else j_signed - 1
                w[j], w_apparent[j], sign, scale_down[j], scale_up[j], slope_down[j], slope_up[j], min_bound[j], max_bound[j] = update_once_mult__2(w[j], w_apparent[j], sign, scale_down[j], scale_up[j], slope_down[j], slope_up[j], min_bound[j], max_bound[j], par.dw_min_std, write_noise_std, rng)
        else:
            for jj in range(x_count):
                j_signed = x_signed_indices[jj]
                sign = -d_sign if j_signed < 0 else d_sign
                j = -j_signed - 1 if j_signed < 0 else j_signed - 1
                w[j], w_apparent[j], sign, scale_down[j], scale_up[j], slope_down[j], slope_up[j], min_bound[j], max_bound[j] = update_once_add__2(w[j], w_apparent[j], sign, scale_down[j], scale_up[j], slope_down[j], slope_up[j], min_bound[j], max_bound[j], par.dw_min_std, write_noise_std, rng)

    def doDenseUpdate(self, weights, coincidences, rng):
        par = self.getPar()
        scale_down = self.w_scale_down_[0]
        scale_up = self.w_scale_up_[0]
        slope_down = self.w_slope_down_[0]
        slope_up = self.w_slope_up_[0]
        w = self.w_persistent_[0] if par.usesPersistentWeight() else weights[0]
        w_apparent = weights[0]
        min_bound = self.w_min_bound_[0]
        max_bound = self.w_max_bound_[0]
        write_noise_std = par.getScaledWriteNoise()
        if par.ls_mult_noise:
            _total_size = self.x_size_ * self.d_size_
            for j in range(_total_size):
                c_signed = coincidences[j]
                if c_signed == 0:
                    continue
                ac = abs(c_signed)
                sign = 1 if c_signed > 0 else -1
                for i_c in range(ac):
                    w[j], w_apparent[j], sign, scale_down[j], scale_up[j], slope_down[j], slope_up[j], min_bound[j], max_bound[j] = update_once_mult__2(w[j], w_apparent[j], sign, scale_down[j], scale_up[j], slope_down[j], slope_up[j], min_bound[j], max_bound[j], par.dw_min_std, write_noise_std, rng)
        else:
            _total_size = self.x_size_ * self.d_size_
            for j in range(_total_size):
                c_signed = coincidences[j]
                if c_signed == 0:
                    continue
                ac = abs(c_signed)
                sign = 1 if c_signed > 0 else -1
                for i_c in range(ac):
                    w[j], w_apparent[j], sign, scale_down[j], scale_up[j], slope_down[j], slope_up[j], min_bound[j], max_bound[j] = update_once_add__2(w[j], w_apparent[j], sign, scale_down[j], scale_up[j], slope_down[j], slope_up[j], min_bound[j], max_bound[j], par.dw_min_std, write_noise_std, rng)



@of("rpucuda.rpu_linearstep_device.LinearStepRPUDeviceMetaParameter")
class LinearStepRPUDeviceMetaParameter:
    ls_decrease_up = None
    ls_decrease_down = None
    ls_decrease_up_dtod = None
    ls_decrease_down_dtod = None
    ls_allow_increasing_slope = None
    ls_mean_bound_reference = None
    ls_mult_noise = None
    ls_reverse_up = None
    ls_reverse_down = None
    ls_reverse_offset = None

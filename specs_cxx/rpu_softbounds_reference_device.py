@of("rpucuda.rpu_softbounds_reference_device.swap__32")
def swap__32(a, b):
    swap__21(a, b)
    a.initialized_, b.initialized_ = (b.initialized_, a.initialized_)
    a.w_reference_, b.w_reference_ = (b.w_reference_, a.w_reference_)


@of("rpucuda.rpu_softbounds_reference_device.update_once_add__1")
def update_once_add__1(w, w_apparent, sign, scale_down, scale_up, ref, min_bound, max_bound, dw_min_std, write_noise_std, rng):
    w += ref
    if sign > 0:
        a = w / min_bound if min_bound < 0 else 0
        w -= scale_down * (1 - a + dw_min_std * rng.sampleGauss())
    else:
        a = w / max_bound if max_bound > 0 else 0
        w += scale_up * (1 - a + dw_min_std * rng.sampleGauss())
    w = max(w, min_bound)
    w = min(w, max_bound)
    w -= ref
    if write_noise_std > 0:
        w_apparent = w + write_noise_std * rng.sampleGauss()
    else:
        w_apparent = w
    return (w, w_apparent, sign, scale_down, scale_up, ref, min_bound, max_bound)


@of("rpucuda.rpu_softbounds_reference_device.update_once_mult__1")
def update_once_mult__1(w, w_apparent, sign, scale_down, scale_up, ref, min_bound, max_bound, dw_min_std, write_noise_std, rng):
    w += ref
    if sign > 0:
        a = w / min_bound if min_bound < 0 else 0
        w -= scale_down * (1 - a) * (1 + dw_min_std * rng.sampleGauss())
    else:
        a = w / max_bound if max_bound > 0 else 0
        w += scale_up * (1 - a) * (1 + dw_min_std * rng.sampleGauss())
    w = max(w, min_bound)
    w = min(w, max_bound)
    w -= ref
    if write_noise_std > 0:
        w_apparent = w + write_noise_std * rng.sampleGauss()
    else:
        w_apparent = w
    return (w, w_apparent, sign, scale_down, scale_up, ref, min_bound, max_bound)


@of("rpucuda.rpu_softbounds_reference_device.SoftBoundsReferenceRPUDevice")
class SoftBoundsReferenceRPUDevice:
    initialized_ = False
    w_reference_ = None
    def ctor__1(self):
        pass

    def ctor__2(self, x_size, d_size):
        PulsedRPUDevice.ctor__2(self, x_size, d_size)
        self.initialize__1()

    def ctor__3(self, x_size, d_size, par, rng):
        PulsedRPUDevice.ctor__2(self, x_size, d_size)
        self.initialize__1()
        self.populate__19(par, rng)

    def copyInvertDeviceParameter(self, rpu_device):
        PulsedRPUDevice.copyInvertDeviceParameter(self, rpu_device)
        rpu = rpu_device
        if rpu is None:
            raise RuntimeError()
        for j in range(self.x_size_):
            for i in range(self.d_size_):
                self.w_reference_[i][j] = -rpu.w_reference_[i][j]

    def clone(self):
        return make_SoftBoundsReferenceRPUDevice(self)

    def initialize__1(self):
        if not self.initialized_:
            x_sz = self.x_size_
            d_sz = self.d_size_
            self.w_reference_ = Array_2D_Get(d_sz, x_sz)
            for j in range(x_sz):
                for i in range(d_sz):
                    self.w_reference_[i][j] = 0
            self.initialized_ = True

    def populate__19(self, p, rng):
        PulsedRPUDevice.populate__16(self, p, rng)
        par = self.getPar()
        for i in range(self.d_size_):
            for j in range(self.x_size_):
                w_min = self.w_min_bound_[i][j]
                scale_down = self.w_scale_down_[i][j]
                w_max = self.w_max_bound_[i][j]
                scale_up = self.w_scale_up_[i][j]
                if w_max > 0 and w_min < 0:
                    current_slope_down = -scale_down / w_min
                    current_slope_down *= abs(1 + par.slope_down_dtod * rng.sampleGauss())
                    current_slope_up = scale_up / w_max
                    current_slope_up *= abs(1 + par.slope_up_dtod * rng.sampleGauss())
                    w_max = scale_up / current_slope_up
                    w_min = -scale_down / current_slope_down
                    self.w_max_bound_[i][j] = w_max
                    self.w_min_bound_[i][j] = w_min
                self.w_reference_[i][j] = par.reference_mean + par.reference_std * rng.sampleGauss()
                if par.subtract_symmetry_point and w_max > 0 and (w_min < 0):
                    sp = (scale_up - scale_down) / (scale_up / w_max - scale_down / w_min)
                    self.w_reference_[i][j] += sp
                    self.w_reset_bias_[i][j] += sp

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def getDPNames(self, names):
        PulsedRPUDevice.getDPNames(self, names)
        names.push_back('reference')

    def getDeviceParameter__2(self, weights, data_ptrs):
        PulsedRPUDevice.getDeviceParameter__2(self, weights, data_ptrs)
        names = make_vector_string()
        all_names = make_vector_string()
        self.getDPNames(all_names)
        if len(all_names) != len(data_ptrs):
            raise RuntimeError()
        PulsedRPUDevice.getDPNames(self, names)
        n_prev = len(names)
        size = self.x_size_ * self.d_size_
        for i in range(size):
            data_ptrs[n_prev][i] = self.w_reference_[0][i]

    def setDeviceParameter__2(self, out_weights, data_ptrs):
        PulsedRPUDevice.setDeviceParameter__2(self, out_weights, data_ptrs)
        names = make_vector_string()
        PulsedRPUDevice.getDPNames(self, names)
        n_prev = len(names)
        size = self.x_size_ * self.d_size_
        for i in range(size):
            self.w_reference_[0][i] = data_ptrs[n_prev][i]
        self.onSetDeviceParameter(out_weights)

    def printDP(self, x_count, d_count):
        if x_count < 0 or x_count > self.x_size_:
            x_count = self.x_size_
        if d_count < 0 or d_count > self.d_size_:
            d_count = self.d_size_
        persist_if = self.getPar().usesPersistentWeight()
        for i in range(d_count):
            for j in range(x_count):
                cout.precision(5)
                cout.precision(10)
                cout.precision(6)

    def getReference(self):
        return self.w_reference_

    def doSparseUpdate(self, weights, i, x_signed_indices, x_count, d_sign, rng):
        par = self.getPar()
        scale_down = self.w_scale_down_[i]
        scale_up = self.w_scale_up_[i]
        ref = self.w_reference_[i]
        w = self.w_persistent_[i] if par.usesPersistentWeight() else weights[i]
        w_apparent = weights[i]
        min_bound = self.w_min_bound_[i]
        max_bound = self.w_max_bound_[i]
        write_noise_std = par.getScaledWriteNoise()
        if par.mult_noise:
            for jj in range(x_count):
                j_signed = x_signed_indices[jj]
                sign = -d_sign if j_signed < 0 else d_sign
                j = -j_signed - 1 if j_signed < 0 else j_signed - 1
                w[j], w_apparent[j], sign, scale_down[j], scale_up[j], ref[j], min_bound[j], max_bound[j] = update_once_mult__1(w[j], w_apparent[j], sign, scale_down[j], scale_up[j], ref[j], min_bound[j], max_bound[j], par.dw_min_std, write_noise_std, rng)
        else:
            for jj in range(x_count):
                j_signed = x_signed_indices[jj]
                sign = -d_sign if j_signed < 0 else d_sign
                j = -j_signed - 1 if j_signed < 0 else j_signed - 1
                w[j], w_apparent[j], sign, scale_down[j], scale_up[j], ref[j], min_bound[j], max_bound[j] = update_once_add__1(w[j], w_apparent[j], sign, scale_down[j], scale_up[j], ref[j], min_bound[j], max_bound[j], par.dw_min_std, write_noise_std, rng)

    def doDenseUpdate(self, weights, coincidences, rng):
        par = self.getPar()
        scale_down = self.w_scale_down_[0]
        scale_up = self.w_scale_up_[0]
        ref = self.w_reference_[0]
        w = self.w_persistent_[0] if par.usesPersistentWeight() else weights[0]
        w_apparent = weights[0]
        min_bound = self.w_min_bound_[0]
        max_bound = self.w_max_bound_[0]
        write_noise_std = par.getScaledWriteNoise()
        if par.mult_noise:
            _total_size = self.x_size_ * self.d_size_
            for j in range(_total_size):
                c_signed = coincidences[j]
                if c_signed == 0:
                    continue
                ac = abs(c_signed)
                sign = 1 if c_signed > 0 else -1
                for i_c in range(ac):
                    w[j], w_apparent[j], sign, scale_down[j], scale_up[j], ref[j], min_bound[j], max_bound[j] = update_once_mult__1(w[j], w_apparent[j], sign, scale_down[j], scale_up[j], ref[j], min_bound[j], max_bound[j], par.dw_min_std, write_noise_std, rng)
        else:
            _total_size = self.x_size_ * self.d_size_
            for j in range(_total_size):
                c_signed = coincidences[j]
                if c_signed == 0:
                    continue
                ac = abs(c_signed)
                sign = 1 if c_signed > 0 else -1
                for i_c in range(ac):
                    w[j], w_apparent[j], sign, scale_down[j], scale_up[j], ref[j], min_bound[j], max_bound[j] = update_once_add__1(w[j], w_apparent[j], sign, scale_down[j], scale_up[j], ref[j], min_bound[j], max_bound[j], par.dw_min_std, write_noise_std, rng)



@of("rpucuda.rpu_softbounds_reference_device.SoftBoundsReferenceRPUDeviceMetaParameter")
class SoftBoundsReferenceRPUDeviceMetaParameter:
    slope_up_dtod = None
    slope_down_dtod = None
    reference_mean = None
    reference_std = None
    mult_noise = None
    subtract_symmetry_point = None

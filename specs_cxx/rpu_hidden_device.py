@of("rpucuda.rpu_hidden_device.swap__10")
def swap__10(a, b):
    swap__21(a, b)
    a.initialized_, b.initialized_ = (b.initialized_, a.initialized_)
    a.hs_scale_down_, b.hs_scale_down_ = (b.hs_scale_down_, a.hs_scale_down_)
    a.hs_scale_up_, b.hs_scale_up_ = (b.hs_scale_up_, a.hs_scale_up_)
    a.hidden_weights_, b.hidden_weights_ = (b.hidden_weights_, a.hidden_weights_)


@of("rpucuda.rpu_hidden_device.update_once__3")
def update_once__3(w, sign, hw, min_bound, max_bound, scale_down, scale_up, hs_scale_down, hs_scale_up, dw_min_std, hs_dw_min_std, rng):
    hs_dw = -hs_scale_down if sign > 0 else hs_scale_up
    hw += (1 + hs_dw_min_std * rng.sampleGauss()) * hs_dw if hs_dw_min_std != 0 else hs_dw
    if hw < -1:
        hw = 0
        dw = (1 + dw_min_std * rng.sampleGauss()) * scale_down if dw_min_std > 0 else scale_down
        w -= dw
        w = max(w, min_bound)
        w = min(w, max_bound)
    elif hw > 1:
        hw = 0
        dw = (1 + dw_min_std * rng.sampleGauss()) * scale_up if dw_min_std > 0 else scale_up
        w += dw
        w = min(w, max_bound)
        w = max(w, min_bound)
    return (w, sign, hw, min_bound, max_bound, scale_down, scale_up, hs_scale_down, hs_scale_up)


@of("rpucuda.rpu_hidden_device.HiddenStepRPUDevice")
class HiddenStepRPUDevice:
    initialized_ = False
    hidden_weights_ = None
    hs_scale_up_ = None
    hs_scale_down_ = None
    def ctor__1(self):
        pass

    def ctor__2(self, x_size, d_size):
        PulsedRPUDevice.ctor__2(self, x_size, d_size)
        self.initialize__1()

    def ctor__3(self, x_size, d_size, par, rng):
        PulsedRPUDevice.ctor__2(self, x_size, d_size)
        self.initialize__1()
        self.populate__7(par, rng)

    def copyInvertDeviceParameter(self, rpu_device):
        PulsedRPUDevice.copyInvertDeviceParameter(self, rpu_device)
        rpu = rpu_device
        if rpu is None:
            raise RuntimeError()
        hs_scale_down = rpu.getHsScaleDown()
        hs_scale_up = rpu.getHsScaleUp()
        for j in range(self.x_size_):
            for i in range(self.d_size_):
                self.hs_scale_up_[i][j] = hs_scale_down[i][j]
                self.hs_scale_down_[i][j] = hs_scale_up[i][j]

    def clone(self):
        return make_HiddenStepRPUDevice(self)

    def initialize__1(self):
        if not self.initialized_:
            x_sz = self.x_size_
            d_sz = self.d_size_
            self.hidden_weights_ = Array_2D_Get(d_sz, x_sz)
            self.hs_scale_up_ = Array_2D_Get(d_sz, x_sz)
            self.hs_scale_down_ = Array_2D_Get(d_sz, x_sz)
            for i in range(d_sz):
                for j in range(x_sz):
                    self.hidden_weights_[i][j] = 0
            self.initialized_ = True

    def populate__7(self, p, rng):
        PulsedRPUDevice.populate__16(self, p, rng)
        par = self.getPar()
        up_down = par.hs_up_down
        up_bias = min(0, up_down)
        down_bias = -up_down if up_down > 0 else 0
        up_down_std = par.hs_up_down_dtod
        for j in range(self.x_size_):
            for i in range(self.d_size_):
                gain = 1 + par.hs_dw_min_dtod * rng.sampleGauss()
                r = up_down_std * rng.sampleGauss()
                self.hs_scale_up_[i][j] = (up_bias + gain + r) * par.hs_dw_min
                self.hs_scale_down_[i][j] = (down_bias + gain - r) * par.hs_dw_min
                self.hidden_weights_[i][j] = 0

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def getDPNames(self, names):
        PulsedRPUDevice.getDPNames(self, names)
        names.push_back('hs_scale_up')
        names.push_back('hs_scale_down')
        names.push_back('hidden_weights')

    def getDeviceParameter__2(self, weights, data_ptrs):
        PulsedRPUDevice.getDeviceParameter__2(self, weights, data_ptrs)
        names = make_vector_string()
        all_names = make_vector_string()
        self.getDPNames(all_names)
        if len(all_names) != len(data_ptrs):
            raise RuntimeError()
        PulsedRPUDevice.getDPNames(self, names)
        n_prev = len(names)
        size = self.x_size_ * self.d_size_
        for i in range(size):
            data_ptrs[n_prev][i] = self.hs_scale_up_[0][i]
            data_ptrs[n_prev + 1][i] = self.hs_scale_down_[0][i]
            data_ptrs[n_prev + 2][i] = self.hidden_weights_[0][i]

    def setDeviceParameter__2(self, out_weights, data_ptrs):
        PulsedRPUDevice.setDeviceParameter__2(self, out_weights, data_ptrs)
        names = make_vector_string()
        PulsedRPUDevice.getDPNames(self, names)
        n_prev = len(names)
        size = self.x_size_ * self.d_size_
        for i in range(size):
            self.hs_scale_up_[0][i] = data_ptrs[n_prev][i]
            self.hs_scale_down_[0][i] = data_ptrs[n_prev + 1][i]
            self.hidden_weights_[0][i] = data_ptrs[n_prev + 2][i]
        self.onSetDeviceParameter(out_weights)

    def getHsScaleUp(self):
        return self.hs_scale_up_

    def getHsScaleDown(self):
        return self.hs_scale_down_

    def getHiddenWeights(self):
        return self.hidden_weights_

    def printDP(self, x_count, d_count):
        if x_count < 0 or x_count > self.x_size_:
            x_count = self.x_size_
        if d_count < 0 or d_count > self.d_size_:
            d_count = self.d_size_
        for i in range(d_count):
            for j in range(x_count):
                cout.precision(5)

    def doSparseUpdate(self, weights, i, x_signed_indices, x_count, d_sign, rng):
        scale_down = self.w_scale_down_[i]
        scale_up = self.w_scale_up_[i]
        w = weights[i]
        min_bound = self.w_min_bound_[i]
        max_bound = self.w_max_bound_[i]
        hw = self.hidden_weights_[i]
        hs_scale_down = self.hs_scale_down_[i]
        hs_scale_up = self.hs_scale_up_[i]
        par = self.getPar()
        for jj in range(x_count):
            j_signed = x_signed_indices[jj]
            sign = -d_sign if j_signed < 0 else d_sign
            j = -j_signed - 1 if j_signed < 0 else j_signed - 1
            w[j], sign, hw[j], min_bound[j], max_bound[j], scale_down[j], scale_up[j], hs_scale_down[j], hs_scale_up[j] = update_once__3(w[j], sign, hw[j], min_bound[j], max_bound[j], scale_down[j], scale_up[j], hs_scale_down[j], hs_scale_up[j], par.dw_min_std, par.hs_dw_min_std, rng)

    def doDenseUpdate(self, weights, coincidences, rng):
        scale_down = self.w_scale_down_[0]
        scale_up = self.w_scale_up_[0]
        w = weights[0]
        min_bound = self.w_min_bound_[0]
        max_bound = self.w_max_bound_[0]
        hw = self.hidden_weights_[0]
        hs_scale_down = self.hs_scale_down_[0]
        hs_scale_up = self.hs_scale_up_[0]
        par = self.getPar()
        _total_size = self.x_size_ * self.d_size_
        for j in range(_total_size):
            c_signed = coincidences[j]
            if c_signed == 0:
                continue
            ac = abs(c_signed)
            sign = 1 if c_signed > 0 else -1
            for i_c in range(ac):
                w[j], sign, hw[j], min_bound[j], max_bound[j], scale_down[j], scale_up[j], hs_scale_down[j], hs_scale_up[j] = update_once__3(w[j], sign, hw[j], min_bound[j], max_bound[j], scale_down[j], scale_up[j], hs_scale_down[j], hs_scale_up[j], par.dw_min_std, par.hs_dw_min_std, rng)



@of("rpucuda.rpu_hidden_device.HiddenStepRPUDeviceMetaParameter")
class HiddenStepRPUDeviceMetaParameter:
    hs_up_down = None
    hs_up_down_dtod = None
    hs_dw_min_dtod = None
    hs_dw_min_std = None
    hs_dw_min = None
    hs_hidden_states = None

@of("rpucuda.rpu_constantstep_device.swap__4")
def swap__4(a, b):
    swap__21(a, b)
    a.initialized_, b.initialized_ = (b.initialized_, a.initialized_)


@of("rpucuda.rpu_constantstep_device.ConstantStepRPUDevice")
class ConstantStepRPUDevice:
    initialized_ = False
    def ctor__1(self):
        pass

    def ctor__2(self, x_size, d_size):
        PulsedRPUDevice.ctor__2(self, x_size, d_size)
        self.initialize__1()

    def ctor__3(self, x_size, d_size, par, rng):
        PulsedRPUDevice.ctor__2(self, x_size, d_size)
        self.initialize__1()
        self.populate__3(par, rng)

    def copyInvertDeviceParameter(self, rpu_device):
        PulsedRPUDevice.copyInvertDeviceParameter(self, rpu_device)
        rpu = rpu_device
        if rpu is None:
            raise RuntimeError()

    def clone(self):
        return make_ConstantStepRPUDevice(self)

    def initialize__1(self):
        if not self.initialized_:
            self.initialized_ = True

    def populate__3(self, p, rng):
        PulsedRPUDevice.populate__16(self, p, rng)

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def getDPNames(self, names):
        PulsedRPUDevice.getDPNames(self, names)

    def getDeviceParameter__2(self, weights, data_ptrs):
        PulsedRPUDevice.getDeviceParameter__2(self, weights, data_ptrs)
        names = make_vector_string()
        all_names = make_vector_string()
        self.getDPNames(all_names)
        if len(all_names) != len(data_ptrs):
            raise RuntimeError()
        PulsedRPUDevice.getDPNames(self, names)

    def setDeviceParameter__2(self, out_weights, data_ptrs):
        PulsedRPUDevice.setDeviceParameter__2(self, out_weights, data_ptrs)
        names = make_vector_string()
        PulsedRPUDevice.getDPNames(self, names)
        self.onSetDeviceParameter(out_weights)

    def doSparseUpdate(self, weights, i, x_signed_indices, x_count, d_sign, rng):
        scale_down = self.w_scale_down_[i]
        scale_up = self.w_scale_up_[i]
        w = weights[i]
        min_bound = self.w_min_bound_[i]
        max_bound = self.w_max_bound_[i]
        dw_min_std = self.getPar().dw_min_std
        if dw_min_std > 0:
            for jj in range(x_count):
                j_signed = x_signed_indices[jj]
                sign = -d_sign if j_signed < 0 else d_sign
                j = -j_signed - 1 if j_signed < 0 else j_signed - 1
                dw = 0
                if sign > 0:
                    dw = (1 + dw_min_std * rng.sampleGauss()) * scale_down[j]
                    w[j] -= dw
                else:
                    dw = (1 + dw_min_std * rng.sampleGauss()) * scale_up[j]
                    w[j] += dw
                w[j] = min(w[j], max_bound[j])
                w[j] = max(w[j], min_bound[j])
        else:
            for jj in range(x_count):
                j_signed = x_signed_indices[jj]
                sign = -d_sign if j_signed < 0 else d_sign
                j = -j_signed - 1 if j_signed < 0 else j_signed - 1
                if sign > 0:
                    w[j] -= scale_down[j]
                else:
                    w[j] += scale_up[j]
                w[j] = min(w[j], max_bound[j])
                w[j] = max(w[j], min_bound[j])

    def doDenseUpdate(self, weights, coincidences, rng):
        scale_down = self.w_scale_down_[0]
        scale_up = self.w_scale_up_[0]
        w = weights[0]
        min_bound = self.w_min_bound_[0]
        max_bound = self.w_max_bound_[0]
        dw_min_std = self.getPar().dw_min_std
        _total_size = self.x_size_ * self.d_size_
        for j in range(_total_size):
            c_signed = coincidences[j]
            if c_signed == 0:
                continue
            ac = abs(c_signed)
            sign = 1 if c_signed > 0 else -1
            for i_c in range(ac):
                dw = dw_min_std * rng.sampleGauss() if dw_min_std > 0 else 0
                if sign > 0:
                    dw = (1 + dw) * scale_down[j]
                    w[j] -= dw
                else:
                    dw = (1 + dw) * scale_up[j]
                    w[j] += dw
                w[j] = min(w[j], max_bound[j])
                w[j] = max(w[j], min_bound[j])


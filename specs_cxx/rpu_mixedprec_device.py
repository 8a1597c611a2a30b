@of("rpucuda.rpu_mixedprec_device.swap__13")
def swap__13(a, b):
    swap__14(a, b)
    a.chi_, b.chi_ = (b.chi_, a.chi_)
    a.qx_, b.qx_ = (b.qx_, a.qx_)
    a.qd_, b.qd_ = (b.qd_, a.qd_)
    a.qx_index_, b.qx_index_ = (b.qx_index_, a.qx_index_)


@of("rpucuda.rpu_mixedprec_device.MixedPrecRPUDevice")
class MixedPrecRPUDevice:
    chi_ = None
    def ctor__1(self, x_sz, d_sz):
        MixedPrecRPUDeviceBase.ctor__2(self, x_sz, d_sz)

    def ctor__2(self, x_sz, d_sz, par, rng):
        self.ctor__1(x_sz, d_sz)
        self.populate__11(par, rng)

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def clone(self):
        return make_MixedPrecRPUDevice(self)

    def onSetWeights(self, weights):
        self.initialize__3(self.x_size_, self.d_size_)
        MixedPrecRPUDeviceBase.onSetWeights(self, weights)
        return True

    def getChi(self, data):
        for i in range(self.size_):
            data[i] = self.chi_[0][i]

    def setChi(self, data):
        for i in range(self.size_):
            self.chi_[0][i] = data[i]

    def forwardUpdate(self, weights, lr, j_row_start, transfer_d_vec, n_vec, trans):
        if not lr != 0:
            return
        if trans:
            raise RuntimeError()
        if len(self.transfer_tmp_) < self.x_size_:
            self.transfer_tmp_.resize(self.x_size_)
        if self.granularity_ <= 0:
            raise RuntimeError()
        for j in range(n_vec):
            chi_row = self.chi_[j_row_start + j]
            for i in range(self.x_size_):
                value = chi_row[i]
                dw = truncf(value / self.granularity_)
                self.transfer_tmp_[i] = dw
                chi_row[i] = value - dw * self.granularity_
            self.transfer_pwu_.updateVectorWithDevice(weights, self.transfer_tmp_, 1, ptr_add(transfer_d_vec, self.d_size_ * j), 1, self.granularity_ * lr, n_vec, self.rpu_device_)

    def doDirectVectorUpdate(self, weights, x_input, x_inc, d_input, d_inc, learning_rate, m_batch_info, up):
        self.setUpPar(up)
        par = self.getPar()
        x_width = 1
        half_x_bins = par.n_x_bins // 2
        if par.n_x_bins > 0:
            max_index = iamax__2(self.x_size_, x_input, x_inc)
            x_amax = abs(x_input[max_index * x_inc])
            x_width = x_amax / half_x_bins
            x_width = 1 if x_width == 0 else x_width
        d_width = 1
        half_d_bins = par.n_d_bins // 2
        if par.n_d_bins > 0:
            max_index = iamax__2(self.d_size_, d_input, d_inc)
            d_amax = abs(d_input[max_index * d_inc])
            d_width = d_amax / half_d_bins
            d_width = 1 if d_width == 0 else d_width
        i_stop = self.x_size_ * x_inc
        j_stop = self.d_size_ * d_inc
        i = -1
        j = -1
        kx = 0
        kd = 0
        if par.n_d_bins <= 0 and par.n_x_bins <= 0:
            ger__2(CblasRowMajor, self.d_size_, self.x_size_, learning_rate, d_input, d_inc, x_input, x_inc, self.chi_[0], self.x_size_)
        elif par.n_d_bins <= 0 or par.n_x_bins <= 0:
            self.qx_.resize(self.x_size_)
            self.qd_.resize(self.d_size_)
            stochastic_rounding_x = par.stoc_round_x
            stoch_value = 0
            for i_x in range(0, i_stop, x_inc):
                i += 1
                x = x_input[i_x]
                if par.n_x_bins > 0:
                    if stochastic_rounding_x:
                        stoch_value = self.rng_.sampleUniform__1() - 0.5
                    x = rintf(x / x_width + stoch_value)
                    x = min(max(x, -half_x_bins), half_x_bins) * x_width
                self.qx_[i] = x
            stochastic_rounding_d = par.stoc_round_d
            stoch_value = 0
            for j_d in range(0, j_stop, d_inc):
                j += 1
                d = d_input[j_d]
                if par.n_d_bins > 0:
                    if stochastic_rounding_d:
                        stoch_value = self.rng_.sampleUniform__1() - 0.5
                    d = rintf(d / d_width + stoch_value)
                    d = min(max(d, -half_d_bins), half_d_bins) * d_width
                self.qd_[i] = d
            ger__2(CblasRowMajor, self.d_size_, self.x_size_, learning_rate, self.qd_, 1, self.qx_, 1, self.chi_[0], self.x_size_)
        else:
            self.qx_.resize(self.x_size_)
            self.qx_index_.resize(self.x_size_)
            stochastic_rounding_x = par.stoc_round_x
            stoch_value = 0
            for i_x in range(0, i_stop, x_inc):
                x = x_input[i_x]
                i += 1
                if stochastic_rounding_x:
                    stoch_value = self.rng_.sampleUniform__1() - 0.5
                qx = rintf(x / x_width + stoch_value)
                if qx == 0:
                    continue
                self.qx_index_[kx] = i
                qx = min(max(qx, -half_x_bins), half_x_bins)
                t__1 = kx
                kx += 1
                self.qx_[t__1] = qx * x_width
            stochastic_rounding_d = par.stoc_round_d
            stoch_value = 0
            for j_d in range(0, j_stop, d_inc):
                d = d_input[j_d]
                j += 1
                if stochastic_rounding_d:
                    stoch_value = self.rng_.sampleUniform__1() - 0.5
                qd = rintf(d / d_width + stoch_value)
                if qd == 0:
                    continue
                qd = min(max(qd, -half_d_bins), half_d_bins)
                qd *= d_width
                chi_row = self.chi_[j]
                kd += 1
                for ii in range(kx):
                    idx = self.qx_index_[ii]
                    qx = self.qx_[ii]
                    chi_row[idx] += learning_rate * qd * qx
        self.doTransfer(weights, par.transfer_lr, m_batch_info)
        self.computeSparsity(kx, kd)
        self.advanceUpdateCounter()

    def populate__11(self, p, rng):
        MixedPrecRPUDeviceBase.populate__10(self, p, rng)
        self.initialize__3(self.x_size_, self.d_size_)

    def initialize__3(self, x_sz, d_sz):
        self.freeContainers()
        self.chi_ = Array_2D_Get(d_sz, x_sz)
        for i in range(x_sz * d_sz):
            self.chi_[0][i] = 0

    def freeContainers(self):
        if self.chi_ is not None:
            Array_2D_Free__1(self.chi_)
            self.chi_ = None



@of("rpucuda.rpu_mixedprec_device.MixedPrecRPUDeviceMetaParameter")
class MixedPrecRPUDeviceMetaParameter:
    n_x_bins = None
    n_d_bins = None
    stoc_round_d = None
    stoc_round_x = None
    transfer_lr = None
    def getName(self):
        return ss

    def createDevice(self, x_size, d_size, rng):
        return make_MixedPrecRPUDevice(x_size, d_size, self, rng)

    def clone(self):
        return make_MixedPrecRPUDeviceMetaParameter(self)

    def implements(self):
        return DeviceUpdateType.MixedPrec

    def initialize__1(self):
        if not self._par_initialized:
            MixedPrecRPUDeviceBaseMetaParameter.initialize__1(self)
            if self.n_d_bins <= 0 or self.n_x_bins <= 0:
                self.compute_sparsity = False


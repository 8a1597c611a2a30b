@of("rpucuda.rpu_mixedprec_int_device.swap__12")
def swap__12(a, b):
    swap__14(a, b)
    a.mx_, b.mx_ = (b.mx_, a.mx_)
    a.md_, b.md_ = (b.md_, a.md_)
    a.chi_, b.chi_ = (b.chi_, a.chi_)
    a.qx_, b.qx_ = (b.qx_, a.qx_)
    a.qx_index_, b.qx_index_ = (b.qx_index_, a.qx_index_)


@of("rpucuda.rpu_mixedprec_int_device.MixedPrecIntRPUDevice")
class MixedPrecIntRPUDevice:
    md_ = -1
    mx_ = -1
    chi_ = None
    def ctor__1(self):
        pass

    def ctor__2(self, x_sz, d_sz):
        MixedPrecRPUDeviceBase.ctor__2(self, x_sz, d_sz)

    def ctor__3(self, x_sz, d_sz, par, rng):
        self.ctor__2(x_sz, d_sz)
        self.populate__9(par, rng)

    def dumpExtra(self, extra, prefix):
        MixedPrecRPUDeviceBase.dumpExtra(self, extra, prefix)
        state = make_state_t()
        insert__3(state, 'md', self.md_)
        insert__3(state, 'mx', self.mx_)
        insertWithPrefix(extra, state, prefix)

    def loadExtra(self, extra, prefix, strict):
        MixedPrecRPUDeviceBase.loadExtra(self, extra, prefix, strict)
        state = selectWithPrefix(extra, prefix)
        self.md_ = load__3(state, 'md', self.md_, strict)
        self.mx_ = load__3(state, 'mx', self.mx_, strict)

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def clone(self):
        return make_MixedPrecIntRPUDevice(self)

    def onSetWeights(self, weights):
        self.initialize__3(self.x_size_, self.d_size_)
        MixedPrecRPUDeviceBase.onSetWeights(self, weights)
        return True

    def getChi(self, data):
        for i in range(self.size_):
            data[i] = self.chi_[0][i]

    def setChi(self, data):
        for i in range(self.size_):
            self.chi_[0][i] = to_int(to_int(m_round(data[i])))

    def forwardUpdate(self, weights, lr, j_row_start, transfer_d_vec, n_vec, trans):
        if not lr != 0:
            return
        if trans:
            raise RuntimeError()
        par = self.getPar()
        if len(self.transfer_tmp_) < self.x_size_:
            self.transfer_tmp_.resize(self.x_size_)
        d_width = self.md_ / (par.n_d_bins // 2)
        x_width = self.mx_ / (par.n_x_bins // 2)
        momentum = par.momentum_chi
        thres = max(m_round(self.granularity_ / abs(lr) / d_width / x_width), 1)
        for j in range(n_vec):
            chi_row = self.chi_[j_row_start + j]
            for i in range(self.x_size_):
                value = chi_row[i]
                dw = truncf(value / thres)
                self.transfer_tmp_[i] = dw
                chi_row[i] = to_int(to_int(value)) - to_int(to_int(m_round((1 - momentum) * thres * dw)))
            self.transfer_pwu_.updateVectorWithDevice(weights, self.transfer_tmp_, 1, ptr_add(transfer_d_vec, self.d_size_ * j), 1, self.granularity_, n_vec, self.rpu_device_)

    def doDirectVectorUpdate(self, weights, x_input, x_inc, d_input, d_inc, learning_rate, m_batch_info, up):
        self.setUpPar(up)
        par = self.getPar()
        max_index = iamax__2(self.x_size_, x_input, x_inc)
        x_amax = abs(x_input[max_index * x_inc])
        max_index = iamax__2(self.d_size_, d_input, d_inc)
        d_amax = abs(d_input[max_index * d_inc])
        momentum = 0 if self.md_ < 0 else par.momentum_nm
        if d_amax > 0:
            self.md_ = momentum * self.md_ + (1 - momentum) * d_amax
        if x_amax > 0:
            self.mx_ = momentum * self.mx_ + (1 - momentum) * x_amax
        half_x_bins = par.n_x_bins // 2
        half_d_bins = par.n_d_bins // 2
        x_width = self.mx_ / (par.n_x_bins / 2)
        d_width = self.md_ / (par.n_d_bins / 2)
        i_stop = self.x_size_ * x_inc
        i = -1
        kx = 0
        self.qx_.resize(self.x_size_)
        self.qx_index_.resize(self.x_size_)
        stochastic_rounding_x = par.stoc_round_x
        stoch_value = 0
        for i_x in range(0, i_stop, x_inc):
            x = x_input[i_x]
            i += 1
            if stochastic_rounding_x:
                stoch_value = self.rng_.sampleUniform__1() - 0.5
            qx = to_int(to_int(m_round(x / x_width + stoch_value)))
            if qx == 0:
                continue
            self.qx_index_[kx] = i
            t__1 = kx
            kx += 1
            self.qx_[t__1] = min(max(qx, -half_x_bins), half_x_bins)
        kd = 0
        j = -1
        j_stop = self.d_size_ * d_inc
        stochastic_rounding_d = par.stoc_round_d
        stoch_value = 0
        for j_d in range(0, j_stop, d_inc):
            d = d_input[j_d]
            j += 1
            if stochastic_rounding_d:
                stoch_value = self.rng_.sampleUniform__1() - 0.5
            qd = to_int(to_int(m_round(d / d_width + stoch_value)))
            if qd == 0:
                continue
            qd = min(max(qd, -half_d_bins), half_d_bins)
            chi_row = self.chi_[j]
            kd += 1
            for ii in range(kx):
                idx = self.qx_index_[ii]
                qx = self.qx_[ii]
                chi_row[idx] += qd * qx
        self.doTransfer(weights, learning_rate, m_batch_info)
        self.computeSparsity(kx, kd)
        self.advanceUpdateCounter()

    def populate__9(self, p, rng):
        MixedPrecRPUDeviceBase.populate__10(self, p, rng)
        self.initialize__3(self.x_size_, self.d_size_)

    def initialize__3(self, x_sz, d_sz):
        self.freeContainers()
        self.chi_ = Array_2D_Get(d_sz, x_sz)
        for i in range(x_sz * d_sz):
            self.chi_[0][i] = 0
        self.md_ = -1
        self.mx_ = -1

    def freeContainers(self):
        if self.chi_ is not None:
            Array_2D_Free__2(self.chi_)
            self.chi_ = None



@of("rpucuda.rpu_mixedprec_int_device.MixedPrecIntRPUDeviceMetaParameter")
class MixedPrecIntRPUDeviceMetaParameter:
    n_x_bins = None
    n_d_bins = None
    momentum_chi = None
    momentum_nm = None
    stoc_round_d = None
    stoc_round_x = None
    def getName(self):
        return ss

    def createDevice(self, x_size, d_size, rng):
        return make_MixedPrecIntRPUDevice(x_size, d_size, self, rng)

    def clone(self):
        return make_MixedPrecIntRPUDeviceMetaParameter(self)

    def implements(self):
        return DeviceUpdateType.MixedPrecInt

    def initialize__1(self):
        if not self._par_initialized:
            MixedPrecRPUDeviceBaseMetaParameter.initialize__1(self)
            if self.n_x_bins <= 2 or self.n_d_bins <= 2:
                raise RuntimeError()
            if self.momentum_chi > 1 or self.momentum_nm > 1 or self.momentum_nm < 0 or (self.momentum_chi < 0):
                raise RuntimeError()


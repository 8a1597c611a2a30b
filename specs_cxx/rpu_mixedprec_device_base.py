@of("rpucuda.rpu_mixedprec_device_base.swap__14")
def swap__14(a, b):
    swap__30(a, b)
    a.rpu_device_, b.rpu_device_ = (b.rpu_device_, a.rpu_device_)
    a.transfer_pwu_, b.transfer_pwu_ = (b.transfer_pwu_, a.transfer_pwu_)
    a.granularity_, b.granularity_ = (b.granularity_, a.granularity_)
    a.transfer_tmp_, b.transfer_tmp_ = (b.transfer_tmp_, a.transfer_tmp_)
    a.current_row_index_, b.current_row_index_ = (b.current_row_index_, a.current_row_index_)
    a.current_update_index_, b.current_update_index_ = (b.current_update_index_, a.current_update_index_)
    a.transfer_d_vecs_, b.transfer_d_vecs_ = (b.transfer_d_vecs_, a.transfer_d_vecs_)
    a.avg_sparsity_, b.avg_sparsity_ = (b.avg_sparsity_, a.avg_sparsity_)
    a.rw_rng_, b.rw_rng_ = (b.rw_rng_, a.rw_rng_)
    a.up_ptr_, b.up_ptr_ = (b.up_ptr_, a.up_ptr_)


@of("rpucuda.rpu_mixedprec_device_base.swap__15")
def swap__15(a, b):
    swap__31(a, b)
    a.transfer_every, b.transfer_every = (b.transfer_every, a.transfer_every)
    a.n_rows_per_transfer, b.n_rows_per_transfer = (b.n_rows_per_transfer, a.n_rows_per_transfer)
    a.random_row, b.random_row = (b.random_row, a.random_row)
    a.granularity, b.granularity = (b.granularity, a.granularity)
    a.device_par, b.device_par = (b.device_par, a.device_par)
    a.compute_sparsity, b.compute_sparsity = (b.compute_sparsity, a.compute_sparsity)


@of("rpucuda.rpu_mixedprec_device_base.MixedPrecRPUDeviceBase")
class MixedPrecRPUDeviceBase:
    rpu_device_ = None
    transfer_pwu_ = None
    granularity_ = 0
    rw_rng_ = make_RealWorldRNG(0)
    rng_ = make_RNG(0)
    current_row_index_ = 0
    current_update_index_ = 0
    avg_sparsity_ = 0
    up_ptr_ = None
    def ctor__1(self):
        pass

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def usesUpdateParameter(self):
        return True

    def setChi(self, data):
        raise RuntimeError()

    def getChi(self, data):
        raise RuntimeError()

    def hasDirectUpdate(self):
        return True

    def forwardUpdate(self, weights, lr, i_row_start, transfer_vec, n_vec, trans):
        raise RuntimeError()

    def advanceUpdateCounter(self):
        self.current_update_index_ += 1

    def ctor__2(self, x_sz, d_sz):
        SimpleRPUDevice.ctor__2(self, x_sz, d_sz)

    def printDP(self, x_count, d_count):
        if not self.rpu_device_ is not None:
            raise RuntimeError()
        x_count1 = max(min(x_count, self.x_size_), 0)
        d_count1 = max(min(d_count, self.d_size_), 0)
        self.rpu_device_.printDP(x_count1, d_count1)
        chi = make_float(self.size_)
        self.getChi(chi)
        for i in range(d_count1):
            for j in range(x_count1):
                k = j + i * self.x_size_

    def getDPNames(self, names):
        if not self.rpu_device_ is not None:
            raise RuntimeError()
        names.clear()
        self.rpu_device_.getDPNames(names)
        names.push_back(ss)

    def getDeviceParameter__2(self, weights, data_ptrs):
        if not self.rpu_device_ is not None:
            raise RuntimeError()
        names = make_vector_string()
        self.getDPNames(names)
        if len(data_ptrs) < len(names):
            raise RuntimeError()
        v = make_vector_float(data_ptrs.begin(), data_ptrs.end() - 1)
        self.rpu_device_.getDeviceParameter__2(weights, v)
        m = len(names) - 1
        self.getChi(data_ptrs[m])

    def setDeviceParameter__2(self, out_weights, data_ptrs):
        if not self.rpu_device_ is not None:
            raise RuntimeError()
        names = make_vector_string()
        self.getDPNames(names)
        if len(data_ptrs) < len(names):
            raise RuntimeError()
        v = make_vector_float(data_ptrs.begin(), data_ptrs.end() - 1)
        self.rpu_device_.setDeviceParameter__2(out_weights, v)
        m = len(names) - 1
        self.setChi(data_ptrs[m])

    def getHiddenWeightsCount(self):
        if not self.rpu_device_ is not None:
            raise RuntimeError()
        return self.rpu_device_.getHiddenWeightsCount() + 1

    def setHiddenWeights(self, data):
        if not self.rpu_device_ is not None:
            raise RuntimeError()
        m = self.rpu_device_.getHiddenWeightsCount()
        if len(data) < (m + 1) * self.size_:
            raise RuntimeError()
        v = make_vector(data.begin(), data.end() - self.size_)
        self.rpu_device_.setHiddenWeights(v)
        offset = m * self.size_
        self.setChi(ptr_add(data, offset))

    def dumpExtra(self, extra, prefix):
        SimpleRPUDevice.dumpExtra(self, extra, prefix)
        state = make_state_t()
        self.rpu_device_.dumpExtra(state, 'rpu_device')
        self.transfer_pwu_.dumpExtra(state, 'transfer_pwu')
        insert__3(state, 'granularity', self.granularity_)
        insert__8(state, 'transfer_tmp', self.transfer_tmp_)
        insert__4(state, 'current_row_index', self.current_row_index_)
        insert(state, 'current_update_index', self.current_update_index_)
        insert__3(state, 'avg_sparsity', self.avg_sparsity_)
        insertWithPrefix(extra, state, prefix)

    def loadExtra(self, extra, prefix, strict):
        SimpleRPUDevice.loadExtra(self, extra, prefix, strict)
        state = selectWithPrefix(extra, prefix)
        self.rpu_device_.loadExtra(state, 'rpu_device', strict)
        self.transfer_pwu_.loadExtra(state, 'transfer_pwu', strict)
        self.granularity_ = load__3(state, 'granularity', self.granularity_, strict)
        load__8(state, 'transfer_tmp', self.transfer_tmp_, strict)
        self.current_row_index_ = load__4(state, 'current_row_index', self.current_row_index_, strict)
        self.current_update_index_ = load(state, 'current_update_index', self.current_update_index_, strict)
        self.avg_sparsity_ = load__3(state, 'avg_sparsity', self.avg_sparsity_, strict)

    def onSetWeights(self, weights):
        if not self.rpu_device_ is not None:
            raise RuntimeError()
        self.current_update_index_ = 0
        self.current_row_index_ = 0
        self.avg_sparsity_ = 0
        self.rpu_device_.onSetWeights(weights)
        return True

    def decayWeights__2(self, weights, bias_no_decay):
        if not self.rpu_device_ is not None:
            raise RuntimeError()
        self.rpu_device_.decayWeights__2(weights, bias_no_decay)

    def decayWeights__4(self, weights, alpha, bias_no_decay):
        if not self.rpu_device_ is not None:
            raise RuntimeError()
        self.rpu_device_.decayWeights__4(weights, alpha, bias_no_decay)

    def diffuseWeights__2(self, weights, rng):
        if not self.rpu_device_ is not None:
            raise RuntimeError()
        self.rpu_device_.diffuseWeights__2(weights, rng)

    def clipWeights__4(self, weights, clip):
        if not self.rpu_device_ is not None:
            raise RuntimeError()
        self.rpu_device_.clipWeights__4(weights, clip)

    def driftWeights__2(self, weights, time_since_last_call, rng):
        if not self.rpu_device_ is not None:
            raise RuntimeError()
        self.rpu_device_.driftWeights__2(weights, time_since_last_call, rng)

    def resetCols__2(self, weights, start_col, n_cols, reset_prob, rng):
        if not self.rpu_device_ is not None:
            raise RuntimeError()
        self.rpu_device_.resetCols__2(weights, start_col, n_cols, reset_prob, rng)

    def getAvgSparsity(self):
        return self.avg_sparsity_ if self.getPar().compute_sparsity else 0

    def getGranularity(self):
        return self.granularity_

    def getRPUDevice(self):
        return self.rpu_device_

    def populate__10(self, p, rng):
        SimpleRPUDevice.populate__18(self, p, rng)
        par = self.getPar()
        self.current_update_index_ = 0
        self.current_row_index_ = 0
        self.avg_sparsity_ = 0
        self.up_ptr_ = None
        if par.device_par is None:
            raise RuntimeError()
        self.rpu_device_ = par.device_par.createDeviceUnique(self.x_size_, self.d_size_, rng)
        shared_rng = make_shared_shared_ptr__NonArray_RNG(0)
        self.transfer_pwu_ = make_unique_unique_ptr_PulsedRPUWeightUpdater(self.x_size_, self.d_size_, shared_rng)
        self.granularity_ = 0
        if self.rpu_device_ is not None:
            self.granularity_ = self.rpu_device_.getWeightGranularity()
        if par.granularity > 0:
            self.granularity_ = par.granularity
        if self.granularity_ <= 0:
            raise RuntimeError()

    def computeSparsity(self, kx, kd):
        par = self.getPar()
        if par.compute_sparsity:
            self.avg_sparsity_ = (self.current_update_index_ * self.avg_sparsity_ + (self.d_size_ - kd) * (self.x_size_ - kx) / self.size_) / (self.current_update_index_ + 1)

    def transfer__1(self, weights, lr):
        par = self.getPar()
        if par.n_rows_per_transfer == 0 or abs(lr) == 0:
            return
        n_transfers = par.n_rows_per_transfer
        if n_transfers < 0:
            n_transfers = self.d_size_
        n_transfers = min(n_transfers, self.d_size_)
        i_row = self.current_row_index_
        if par.random_row and n_transfers < self.d_size_:
            i_row = max(min(to_int(to_int(m_floor(self.rw_rng_.sampleUniform__1() * self.d_size_))), self.d_size_ - 1), 0)
        d2_size = self.d_size_ * self.d_size_
        if len(self.transfer_d_vecs_) < d2_size:
            self.transfer_d_vecs_.resize(d2_size, 0)
            for i in range(0, d2_size, self.d_size_ + 1):
                self.transfer_d_vecs_[i] = 1
        tvec = ptr_add(self.transfer_d_vecs_, i_row * self.d_size_)
        n_rest = self.d_size_ - i_row
        if n_rest < n_transfers:
            self.forwardUpdate(weights, lr, i_row, tvec, n_rest, False)
            self.forwardUpdate(weights, lr, 0, self.transfer_d_vecs_, n_transfers - n_rest, False)
        else:
            self.forwardUpdate(weights, lr, i_row, tvec, n_transfers, False)
        self.current_row_index_ = (i_row + n_transfers) % self.d_size_

    def doTransfer(self, weights, lr, m_batch_info):
        par = self.getPar()
        every = par.transfer_every * m_batch_info
        if every > 0 and self.current_update_index_ > 0 and (self.current_update_index_ % every == 0):
            self.transfer__1(weights, lr)

    def setUpPar(self, up):
        if up != self.up_ptr_:
            self.up_ptr_ = up
            up_modified = up
            up_modified.update_management = True
            up_modified.update_bl_management = True
            self.transfer_pwu_.setUpPar(up_modified)



@of("rpucuda.rpu_mixedprec_device_base.MixedPrecRPUDeviceBaseMetaParameter")
class MixedPrecRPUDeviceBaseMetaParameter:
    transfer_every = None
    n_rows_per_transfer = None
    random_row = None
    granularity = None
    compute_sparsity = None
    device_par = None
    def getName(self):
        return ss

    def setDevicePar(self, par):
        dp = par
        if dp is None:
            return False
        else:
            self.device_par = dp.cloneUnique()
            return True

    def initialize__1(self):
        if not self._par_initialized:
            AbstractRPUDeviceMetaParameter.initialize__1(self)
            if not self.device_par is not None:
                raise RuntimeError()
            self.device_par.initialize__1()


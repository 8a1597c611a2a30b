@of("rpucuda.rpu_weight_updater.getSparseCountsFromCounts")
def getSparseCountsFromCounts(sparse_indices, sparse_counts, counts, K, size):
    for k in range(K):
        sparse_counts[k] = 0
    for i in range(size):
        nK32 = (K + 1 + 31) // 32
        one = 1
        negative = counts[i] & one
        s = 0
        for j in range(nK32):
            c = counts[i + j * size]
            for l in range(1 if j == 0 else 0, 32):
                if c & one << l != 0:
                    iplus1 = -(i + 1) if negative > 0 else i + 1
                    t__1 = sparse_counts[s]
                    sparse_counts[s] += 1
                    sparse_indices[s][t__1] = iplus1
                s += 1
                if s == K:
                    break
    return (sparse_indices, sparse_counts, counts)


@of("rpucuda.rpu_weight_updater.swap__24")
def swap__24(a, b):
    swap__29(a, b)
    a.containers_allocated_, b.containers_allocated_ = (b.containers_allocated_, a.containers_allocated_)
    a.up_, b.up_ = (b.up_, a.up_)
    a.sblm_, b.sblm_ = (b.sblm_, a.sblm_)
    a.dblm_, b.dblm_ = (b.dblm_, a.dblm_)
    a.rng_, b.rng_ = (b.rng_, a.rng_)
    a.x_noz_, b.x_noz_ = (b.x_noz_, a.x_noz_)
    a.d_noz_, b.d_noz_ = (b.d_noz_, a.d_noz_)


@of("rpucuda.rpu_weight_updater.swap__29")
def swap__29(a, b):
    a.x_size_, b.x_size_ = (b.x_size_, a.x_size_)
    a.d_size_, b.d_size_ = (b.d_size_, a.d_size_)


@of("rpucuda.rpu_weight_updater.PulsedRPUWeightUpdater")
class PulsedRPUWeightUpdater:
    containers_allocated_ = None
    rng_ = None
    sblm_ = None
    dblm_ = None
    d_noz_ = None
    x_noz_ = None
    def getUpPar(self):
        return self.up_

    def ctor__2(self, x_size, d_size, rng):
        RPUWeightUpdater.ctor__2(self, x_size, d_size)
        self.rng_ = rng
        self.allocateContainers__1()

    def ctor__1(self):
        pass

    def dumpExtra(self, extra, prefix):
        RPUWeightUpdater.dumpExtra(self, extra, prefix)
        state = make_state_t()
        if self.containers_allocated_:
            self.dblm_.dumpExtra(state, 'dblm')
            self.sblm_.dumpExtra(state, 'sblm')
        insert__1(state, 'containers_allocated', self.containers_allocated_)
        insert__4(state, 'd_noz', self.d_noz_)
        insert__4(state, 'x_noz', self.x_noz_)
        insertWithPrefix(extra, state, prefix)

    def loadExtra(self, extra, prefix, strict):
        RPUWeightUpdater.loadExtra(self, extra, prefix, strict)
        state = selectWithPrefix(extra, prefix)
        was_allocated = None
        was_allocated = load__1(state, 'containers_allocated', was_allocated, strict)
        if not self.containers_allocated_ and was_allocated:
            self.allocateContainers__1()
        self.d_noz_ = load__4(state, 'd_noz', self.d_noz_, strict)
        self.x_noz_ = load__4(state, 'x_noz', self.x_noz_, strict)
        if self.containers_allocated_:
            self.dblm_.loadExtra(state, 'dblm', strict)
            self.sblm_.loadExtra(state, 'sblm', strict)

    def checkForFPUpdate(self, rpu_device_in):
        if rpu_device_in is None:
            return True
        if rpu_device_in.implements() == DeviceUpdateType.FloatingPoint:
            return True
        if rpu_device_in.isPulsedDevice() and self.up_.pulse_type == PulseType.None_:
            return True
        if rpu_device_in.hasDirectUpdate():
            return False
        return False

    def updateVectorWithDevice(self, weights, x_input, x_inc, d_input, d_inc, learning_rate, m_batch_info, rpu_device_in):
        if not learning_rate != 0:
            return
        if rpu_device_in is not None and rpu_device_in.hasDirectUpdate():
            rpu_device_in.doDirectVectorUpdate(weights, x_input, x_inc, d_input, d_inc, learning_rate, m_batch_info, self.up_)
            return
        elif self.up_.pulse_type == PulseType.NoneWithDevice or self.checkForFPUpdate(rpu_device_in):
            RPUWeightUpdater.updateVector__2(self, weights, x_input, x_inc, d_input, d_inc, learning_rate)
            if self.up_.pulse_type == PulseType.NoneWithDevice:
                rpu_device_in.clipWeights__4(weights, -1)
            return
        rpu_device = rpu_device_in
        weight_granularity = rpu_device.getWeightGranularity()
        if self.up_.d_sparsity:
            self.up_._d_sparsity = self.getCurrentDSparsity()
        rpu_device.initUpdateCycle(weights, self.up_, learning_rate, m_batch_info, x_input, x_inc, d_input, d_inc)
        pc_learning_rate = rpu_device.getPulseCountLearningRate(learning_rate, m_batch_info, self.up_)
        self.d_noz_ = 0
        self.x_noz_ = 0
        if self.sblm_.supports(self.up_.pulse_type):
            t__1, self.x_noz_, self.d_noz_ = self.sblm_.makeCounts(x_input, x_inc, self.x_noz_, d_input, d_inc, self.d_noz_, self.rng_, -pc_learning_rate if pc_learning_rate < 0 else pc_learning_rate, weight_granularity, self.up_)
            BL = t__1
            lr_sign = -1 if pc_learning_rate < 0 else 1
            if BL > 0:
                x_counts_p = None
                x_counts_n = None
                d_counts = None
                x_indices_p = None
                x_indices_n = None
                d_indices = None
                t__2, x_counts_p, x_counts_n, d_counts, x_indices_p, x_indices_n, d_indices = self.sblm_.getCountsAndIndices(x_counts_p, x_counts_n, d_counts, x_indices_p, x_indices_n, d_indices)
                do_negative_separatly = t__2
                for k in range(BL):
                    if d_counts[k] > 0:
                        for ii in range(d_counts[k]):
                            i_signed = d_indices[k][ii]
                            d_sign = -lr_sign if i_signed < 0 else lr_sign
                            i = -i_signed - 1 if i_signed < 0 else i_signed - 1
                            if x_counts_p[k] > 0:
                                rpu_device.doSparseUpdate(weights, i, x_indices_p[k], x_counts_p[k], d_sign, self.rng_)
                            if do_negative_separatly:
                                if x_counts_n[k] > 0:
                                    rpu_device.doSparseUpdate(weights, i, x_indices_n[k], x_counts_n[k], d_sign, self.rng_)
        else:
            t__3, self.x_noz_, self.d_noz_ = self.dblm_.makeCoincidences(x_input, x_inc, self.x_noz_, d_input, d_inc, self.d_noz_, self.rng_, pc_learning_rate, weight_granularity, self.up_)
            coincidences = t__3
            rpu_device.doDenseUpdate(weights, coincidences, self.rng_)
        rpu_device.finishUpdateCycle(weights, self.up_, learning_rate, m_batch_info)

    def updateVectorWithDeviceAndCounts(self, weights, x_input, x_inc, d_input, d_inc, learning_rate, m_batch_info, rpu_device, x_counts32, d_counts32):
        if not self.sblm_.supports(self.up_.pulse_type):
            raise RuntimeError()
        self.d_noz_ = 0
        self.x_noz_ = 0
        t__1, self.x_noz_, self.d_noz_ = self.sblm_.makeCounts(x_input, x_inc, self.x_noz_, d_input, d_inc, self.d_noz_, self.rng_, abs(learning_rate), rpu_device.getWeightGranularity(), self.up_)
        BL = t__1
        x_counts_p = None
        x_counts_n = None
        d_counts = None
        x_indices_p = None
        x_indices_n = None
        d_indices = None
        t__2, x_counts_p, x_counts_n, d_counts, x_indices_p, x_indices_n, d_indices = self.sblm_.getCountsAndIndices(x_counts_p, x_counts_n, d_counts, x_indices_p, x_indices_n, d_indices)
        do_negative_separatly = t__2
        if do_negative_separatly:
            raise RuntimeError()
        x_indices_p, x_counts_p, x_counts32 = getSparseCountsFromCounts(x_indices_p, x_counts_p, x_counts32, BL, self.x_size_)
        d_indices, d_counts, d_counts32 = getSparseCountsFromCounts(d_indices, d_counts, d_counts32, BL, self.d_size_)
        rpu_device.initUpdateCycle(weights, self.up_, learning_rate, m_batch_info, x_input, x_inc, d_input, d_inc)
        if BL > 0:
            lr_sign = -1 if learning_rate < 0 else 1
            for k in range(BL):
                if d_counts[k] > 0:
                    for ii in range(d_counts[k]):
                        i_signed = d_indices[k][ii]
                        d_sign = -lr_sign if i_signed < 0 else lr_sign
                        i = (-i_signed if i_signed < 0 else i_signed) - 1
                        if x_counts_p[k] > 0:
                            rpu_device.doSparseUpdate(weights, i, x_indices_p[k], x_counts_p[k], d_sign, self.rng_)
        rpu_device.finishUpdateCycle(weights, self.up_, learning_rate, m_batch_info)

    def setUpPar(self, up):
        self.up_ = up
        self.up_.initialize__1()

    def getCurrentDSparsity(self):
        return self.d_noz_ / self.d_size_

    def getCurrentXSparsity(self):
        return self.x_noz_ / self.x_size_

    def freeContainers(self):
        if self.containers_allocated_:
            self.sblm_ = None
            self.dblm_ = None
            self.containers_allocated_ = False

    def allocateContainers__1(self):
        if not self.containers_allocated_:
            self.freeContainers()
            self.sblm_ = make_SparseBitLineMaker(self.x_size_, self.d_size_)
            self.dblm_ = make_DenseBitLineMaker(self.x_size_, self.d_size_)
            self.containers_allocated_ = True
        self.x_noz_ = 0
        self.d_noz_ = 0



@of("rpucuda.rpu_weight_updater.RPUWeightUpdater")
class RPUWeightUpdater:
    x_size_ = None
    d_size_ = None
    def ctor__2(self, x_size, d_size):
        self.x_size_ = x_size
        self.d_size_ = d_size

    def ctor__1(self):
        pass

    def updateVector__2(self, weights, x_input, x_inc, d_input, d_inc, learning_rate):
        ger__2(CblasRowMajor, self.d_size_, self.x_size_, -learning_rate, d_input, d_inc, x_input, x_inc, weights[0], self.x_size_)

    def dumpExtra(self, extra, prefix):
        pass

    def loadExtra(self, extra, prefix, strict):
        pass


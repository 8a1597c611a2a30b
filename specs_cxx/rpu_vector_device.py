@of("rpucuda.rpu_vector_device.swap__35")
def swap__35(a, b):
    swap__22(a, b)
    a.weights_vec_, b.weights_vec_ = (b.weights_vec_, a.weights_vec_)
    a.rpu_device_vec_, b.rpu_device_vec_ = (b.rpu_device_vec_, a.rpu_device_vec_)
    a.reduce_weightening_, b.reduce_weightening_ = (b.reduce_weightening_, a.reduce_weightening_)
    a.current_device_idx_, b.current_device_idx_ = (b.current_device_idx_, a.current_device_idx_)
    a.current_update_idx_, b.current_update_idx_ = (b.current_update_idx_, a.current_update_idx_)
    a.n_devices_, b.n_devices_ = (b.n_devices_, a.n_devices_)


@of("rpucuda.rpu_vector_device.swap__36")
def swap__36(a, b):
    swap__23(a, b)
    a.vec_par, b.vec_par = (b.vec_par, a.vec_par)
    a.same_context, b.same_context = (b.same_context, a.same_context)
    a.update_policy, b.update_policy = (b.update_policy, a.update_policy)
    a.gamma_vec, b.gamma_vec = (b.gamma_vec, a.gamma_vec)
    a.first_update_idx, b.first_update_idx = (b.first_update_idx, a.first_update_idx)


@of("rpucuda.rpu_vector_device.VectorRPUDevice")
class VectorRPUDevice:
    n_devices_ = 0
    weights_vec_ = None
    current_device_idx_ = 0
    current_update_idx_ = 0
    rw_rng_ = make_RealWorldRNG(0)
    def ctor__1(self):
        pass

    def disp__2(self, ss):
        pass

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def clone(self):
        return make_VectorRPUDevice(self)

    def getWeightVec(self):
        return self.weights_vec_

    def ctor__2(self, x_sz, d_sz):
        PulsedRPUDeviceBase.ctor__2(self, x_sz, d_sz)

    def ctor__3(self, x_sz, d_sz, p, rng):
        self.ctor__2(x_sz, d_sz)
        self.populate__21(p, rng)

    def getDPNames(self, names):
        names.clear()
        for k in range(len(self.rpu_device_vec_)):
            n = make_vector_string()
            self.rpu_device_vec_[k].getDPNames(n)
            for i in range(len(n)):
                names.push_back(ss)
            names.push_back(ss)

    def getDeviceParameter__2(self, weights, data_ptrs):
        names = make_vector_string()
        self.getDPNames(names)
        if len(data_ptrs) < len(names):
            raise RuntimeError()
        m = 0
        for k in range(len(self.rpu_device_vec_)):
            n = make_vector_string()
            self.rpu_device_vec_[k].getDPNames(n)
            v = make_vector_float()
            for i in range(len(n)):
                v.push_back(data_ptrs[m + i])
            self.rpu_device_vec_[k].getDeviceParameter__2(self.weights_vec_[k], v)
            m += len(n)
            for i in range(self.size_):
                data_ptrs[m][i] = self.weights_vec_[k][0][i]
            m += 1

    def setDeviceParameter__2(self, out_weights, data_ptrs):
        names = make_vector_string()
        self.getDPNames(names)
        if len(data_ptrs) < len(names):
            raise RuntimeError()
        weight_granularity = 0
        m = 0
        for k in range(len(self.rpu_device_vec_)):
            n = make_vector_string()
            self.rpu_device_vec_[k].getDPNames(n)
            v = make_vector_float()
            for i in range(len(n)):
                v.push_back(data_ptrs[m + i])
            m += len(n)
            for i in range(self.size_):
                self.weights_vec_[k][0][i] = data_ptrs[m][i]
            self.rpu_device_vec_[k].setDeviceParameter__2(self.weights_vec_[k], v)
            weight_granularity_device = self.rpu_device_vec_[k].getWeightGranularity()
            weight_granularity += weight_granularity_device
            m += 1
        self.reduceToWeights(out_weights)
        weight_granularity /= len(self.rpu_device_vec_)
        self.setWeightGranularity(weight_granularity)

    def getHiddenWeightsCount(self):
        if not self.n_devices_ != 0:
            return 0
        m = self.n_devices_
        for k in range(self.n_devices_):
            m += self.rpu_device_vec_[k].getHiddenWeightsCount()
        return m

    def setHiddenWeights(self, data):
        if not self.n_devices_ != 0:
            return
        offset = 0
        size = self.size_
        for k in range(self.n_devices_):
            m = self.rpu_device_vec_[k].getHiddenWeightsCount()
            if len(data) < offset + (m + 1) * size:
                raise RuntimeError()
            for i in range(size):
                self.weights_vec_[k][0][i] = data[offset + i]
            offset += self.size_
            tmp_data = make_vector(m * size)
            for i in range(m * size):
                tmp_data[i] = data[offset + i]
            offset += self.size_ * m
            self.rpu_device_vec_[k].setHiddenWeights(tmp_data)

    def getHiddenUpdateIdx(self):
        return self.current_device_idx_

    def setHiddenUpdateIdx(self, idx):
        self.current_device_idx_ = idx

    def dumpExtra(self, extra, prefix):
        PulsedRPUDeviceBase.dumpExtra(self, extra, prefix)
        state = make_state_t()
        for k in range(len(self.rpu_device_vec_)):
            self.rpu_device_vec_[k].dumpExtra(state, std_to_string(k))
        insert__8(state, 'reduce_weightening', self.reduce_weightening_)
        insert__4(state, 'current_device_idx', self.current_device_idx_)
        insert(state, 'current_update_idx', self.current_update_idx_)
        insertWithPrefix(extra, state, prefix)

    def loadExtra(self, extra, prefix, strict):
        PulsedRPUDeviceBase.loadExtra(self, extra, prefix, strict)
        state = selectWithPrefix(extra, prefix)
        for k in range(len(self.rpu_device_vec_)):
            self.rpu_device_vec_[k].loadExtra(state, std_to_string(k), strict)
        load__8(state, 'reduce_weightening', self.reduce_weightening_, strict)
        self.current_device_idx_ = load__4(state, 'current_device_idx', self.current_device_idx_, strict)
        self.current_update_idx_ = load(state, 'current_update_idx', self.current_update_idx_, strict)

    def printDP(self, x_count, d_count):
        x_count1 = x_count
        d_count1 = d_count
        if x_count < 0 or x_count > self.x_size_:
            x_count1 = self.x_size_
        if d_count < 0 or d_count > self.d_size_:
            d_count1 = self.d_size_
        for k in range(len(self.rpu_device_vec_)):
            self.rpu_device_vec_[k].printDP(x_count1, d_count1)
            for i in range(d_count1):
                for j in range(x_count1):
                    pass

    def getRpuVec(self):
        return self.rpu_device_vec_

    def getReduceWeightening(self):
        return self.reduce_weightening_

    def getCurrentDeviceIdx(self):
        return self.current_device_idx_

    def decayWeights__2(self, weights, bias_no_decay):
        self.decayWeights__4(weights, 1, bias_no_decay)

    def decayWeights__4(self, weights, alpha, bias_no_decay):
        for k in range(len(self.rpu_device_vec_)):
            self.rpu_device_vec_[k].decayWeights__4(self.weights_vec_[k], alpha, bias_no_decay)
        self.reduceToWeights(weights)

    def diffuseWeights__2(self, weights, rng):
        for k in range(len(self.rpu_device_vec_)):
            self.rpu_device_vec_[k].diffuseWeights__2(self.weights_vec_[k], rng)
        self.reduceToWeights(weights)

    def clipWeights__4(self, weights, clip):
        for k in range(len(self.rpu_device_vec_)):
            self.rpu_device_vec_[k].clipWeights__4(self.weights_vec_[k], clip)
        self.reduceToWeights(weights)

    def driftWeights__2(self, weights, time_since_last_call, rng):
        for k in range(len(self.rpu_device_vec_)):
            self.rpu_device_vec_[k].driftWeights__2(self.weights_vec_[k], time_since_last_call, rng)
        self.reduceToWeights(weights)

    def resetCols__2(self, weights, start_col, n_cols, reset_prob, rng):
        for k in range(len(self.rpu_device_vec_)):
            self.rpu_device_vec_[k].resetCols__2(self.weights_vec_[k], start_col, n_cols, reset_prob, rng)
        self.reduceToWeights(weights)

    def onSetWeights(self, weights):
        w = weights[0]
        fixed_index = self.resetCounters(False)
        for k in range(len(self.rpu_device_vec_)):
            if fixed_index >= 0 and fixed_index == k or fixed_index < 0:
                for i in range(self.size_):
                    self.weights_vec_[k][0][i] = w[i]
            self.rpu_device_vec_[k].onSetWeights(self.weights_vec_[k])
        self.reduceToWeights(weights)
        return True

    def initUpdateCycle(self, weights, up, current_lr, m_batch_info, x_input, x_inc, d_input, d_inc):
        par = self.getPar()
        if par.update_policy == VectorDeviceUpdatePolicy.SingleRandom:
            self.current_device_idx_ = to_int(to_int(m_floor(self.rw_rng_.sampleUniform__1() * self.n_devices_)))
        elif par.update_policy == VectorDeviceUpdatePolicy.SingleSequential:
            self.current_device_idx_ += 1
            self.current_device_idx_ = self.current_device_idx_ % self.n_devices_
        if par.singleDeviceUpdate():
            self.rpu_device_vec_[self.current_device_idx_].initUpdateCycle(self.weights_vec_[self.current_device_idx_], up, current_lr, m_batch_info, x_input, x_inc, d_input, d_inc)
        else:
            for k in range(len(self.rpu_device_vec_)):
                self.rpu_device_vec_[k].initUpdateCycle(self.weights_vec_[k], up, current_lr, m_batch_info, x_input, x_inc, d_input, d_inc)

    def finishUpdateCycle(self, weights, up, current_lr, m_batch_info):
        if self.getPar().singleDeviceUpdate():
            self.rpu_device_vec_[self.current_device_idx_].finishUpdateCycle(self.weights_vec_[self.current_device_idx_], up, current_lr, m_batch_info)
        else:
            for k in range(len(self.rpu_device_vec_)):
                self.rpu_device_vec_[k].finishUpdateCycle(self.weights_vec_[k], up, current_lr, m_batch_info)
        self.reduceToWeights(weights)
        self.current_update_idx_ += 1

    def doSparseUpdate(self, weights, i, x_signed_indices, x_count, d_sign, rng):
        if self.getPar().singleDeviceUpdate():
            self.rpu_device_vec_[self.current_device_idx_].doSparseUpdate(self.weights_vec_[self.current_device_idx_], i, x_signed_indices, x_count, d_sign, rng)
        else:
            for k in range(len(self.rpu_device_vec_)):
                self.rpu_device_vec_[k].doSparseUpdate(self.weights_vec_[k], i, x_signed_indices, x_count, d_sign, rng)
        m = len(self.rpu_device_vec_)
        for jj in range(x_count):
            j = x_signed_indices[jj]
            j = -j - 1 if j < 0 else j - 1
            w = 0
            for k in range(m):
                w += self.reduce_weightening_[k] * self.weights_vec_[k][i][j]
            weights[i][j] = w

    def doDenseUpdate(self, weights, coincidences, rng):
        if self.getPar().singleDeviceUpdate():
            self.rpu_device_vec_[self.current_device_idx_].doDenseUpdate(self.weights_vec_[self.current_device_idx_], coincidences, rng)
        else:
            for k in range(len(self.rpu_device_vec_)):
                self.rpu_device_vec_[k].doDenseUpdate(self.weights_vec_[k], coincidences, rng)
        self.reduceToWeights(weights)

    def populate__21(self, p, rng):
        PulsedRPUDeviceBase.populate__17(self, p, rng)
        par = self.getPar()
        self.allocateContainers__2(len(par.vec_par))
        self.resetCounters(True)
        self.rpu_device_vec_.clear()
        self.reduce_weightening_.clear()
        weight_granularity = 0
        for k in range(self.n_devices_):
            self.rpu_device_vec_.push_back(par.vec_par[k].createDevice(self.x_size_, self.d_size_, rng))
            weight_granularity += self.rpu_device_vec_[len(self.rpu_device_vec_) - 1].getWeightGranularity()
            self.reduce_weightening_.push_back(1 / self.n_devices_)
        weight_granularity = weight_granularity / self.n_devices_
        self.setWeightGranularity(weight_granularity)
        if len(par.gamma_vec) != 0:
            if len(par.gamma_vec) != self.n_devices_:
                raise RuntimeError()
            self.reduce_weightening_ = copy(par.gamma_vec)

    def reduceToWeights(self, weights):
        gemv__2(CblasColMajor, CblasNoTrans, self.size_, self.n_devices_, 1, self.weights_vec_[0][0], self.size_, self.reduce_weightening_, 1, 0, weights[0], 1)

    def resetCounters(self, force):
        self.current_update_idx_ = 0
        if force or self.getPar().update_policy != VectorDeviceUpdatePolicy.SingleFixed:
            self.current_device_idx_ = self.getPar().first_update_idx
            return -1
        else:
            return self.current_device_idx_

    def freeContainers(self):
        if self.weights_vec_ is not None:
            Array_3D_Free(self.weights_vec_, self.n_devices_)
        self.n_devices_ = 0
        self.rpu_device_vec_.clear()
        self.reduce_weightening_.clear()

    def allocateContainers__2(self, n_devices):
        self.freeContainers()
        self.n_devices_ = n_devices
        self.weights_vec_ = Array_3D_Get(self.n_devices_, self.d_size_, self.x_size_)
        for k in range(self.n_devices_):
            for i in range(self.size_):
                self.weights_vec_[k][0][i] = 0



@of("rpucuda.rpu_vector_device.VectorRPUDeviceMetaParameter")
class VectorRPUDeviceMetaParameter:
    same_context = True
    update_policy = VectorDeviceUpdatePolicy.All
    first_update_idx = 0
    def ctor__1(self):
        pass

    def getName(self):
        return ss

    def createDevice(self, x_size, d_size, rng):
        return make_VectorRPUDevice(x_size, d_size, self, rng)

    def clone(self):
        return make_VectorRPUDeviceMetaParameter(self)

    def implements(self):
        return DeviceUpdateType.Vector

    def calcWeightGranularity(self):
        weight_granularity = 0
        for k in range(len(self.vec_par)):
            weight_granularity += self.vec_par[k].calcWeightGranularity() / len(self.vec_par)
        return weight_granularity

    def calcNumStates(self):
        num_states = 0
        for k in range(len(self.vec_par)):
            num_states += self.vec_par[k].calcNumStates() / len(self.vec_par)
        return num_states

    def singleDeviceUpdate(self):
        return self.update_policy != VectorDeviceUpdatePolicy.All

    def ctor__2(self, dp, n_devices):
        self.vec_par.clear()
        for i in range(n_devices):
            self.appendVecPar(dp)

    def appendVecPar(self, par):
        dp = par.clone()
        if dp is None:
            return False
        else:
            self.vec_par.push_back(dp)
            return True

    def operator__(self, idx):
        if idx >= len(self.vec_par):
            raise RuntimeError()
        dp = ptr_add(self.vec_par, idx)
        if not dp is not None:
            raise RuntimeError()
        return dp


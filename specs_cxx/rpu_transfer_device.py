@of("rpucuda.rpu_transfer_device.swap__34")
def swap__34(a, b):
    swap__35(a, b)
    a.transfer_pwu_, b.transfer_pwu_ = (b.transfer_pwu_, a.transfer_pwu_)
    a.transfer_fb_pass_, b.transfer_fb_pass_ = (b.transfer_fb_pass_, a.transfer_fb_pass_)
    a.transfer_vecs_, b.transfer_vecs_ = (b.transfer_vecs_, a.transfer_vecs_)
    a.transfer_every_, b.transfer_every_ = (b.transfer_every_, a.transfer_every_)
    a.current_slice_indices_, b.current_slice_indices_ = (b.current_slice_indices_, a.current_slice_indices_)
    a.fully_hidden_, b.fully_hidden_ = (b.fully_hidden_, a.fully_hidden_)
    a.last_weight_, b.last_weight_ = (b.last_weight_, a.last_weight_)


@of("rpucuda.rpu_transfer_device.TransferRPUDevice")
class TransferRPUDevice:
    transfer_fb_pass_ = None
    transfer_pwu_ = None
    fully_hidden_ = False
    last_weight_ = None
    def ctor__1(self):
        pass

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def clone(self):
        return make_TransferRPUDevice(self)

    def setHiddenUpdateIdx(self, idx):
        pass

    def getTransferVecs(self):
        return self.transfer_vecs_

    def ctor__2(self, x_sz, d_sz):
        VectorRPUDevice.ctor__2(self, x_sz, d_sz)

    def ctor__3(self, x_sz, d_sz, par, rng):
        self.ctor__2(x_sz, d_sz)
        self.populate__20(par, rng)

    def onSetWeights(self, weights):
        if not self.n_devices_ != 0:
            raise RuntimeError()
        self.resetCounters(False)
        last_idx = self.n_devices_ - 1
        for j in range(self.n_devices_):
            for i in range(self.size_):
                self.weights_vec_[j][0][i] = 0
        if self.fully_hidden_:
            self.rpu_device_vec_[last_idx].onSetWeights(weights)
        else:
            gamma_last = self.reduce_weightening_[last_idx]
            if not gamma_last != 0:
                raise RuntimeError()
            for i in range(self.size_):
                self.weights_vec_[last_idx][0][i] = weights[0][i] / gamma_last
            for k in range(self.n_devices_):
                self.rpu_device_vec_[k].onSetWeights(self.weights_vec_[k])
            self.reduceToWeights(weights)
        return True

    def decayWeights__2(self, weights, bias_no_decay):
        if not self.fully_hidden_:
            VectorRPUDevice.decayWeights__2(self, weights, bias_no_decay)
        else:
            for k in range(len(self.rpu_device_vec_) - 1):
                self.rpu_device_vec_[k].decayWeights__2(self.weights_vec_[k], bias_no_decay)
            self.rpu_device_vec_[len(self.rpu_device_vec_) - 1].decayWeights__2(weights, bias_no_decay)

    def decayWeights__4(self, weights, alpha, bias_no_decay):
        if not self.fully_hidden_:
            VectorRPUDevice.decayWeights__4(self, weights, alpha, bias_no_decay)
        else:
            for k in range(len(self.rpu_device_vec_) - 1):
                self.rpu_device_vec_[k].decayWeights__4(self.weights_vec_[k], alpha, bias_no_decay)
            self.rpu_device_vec_[len(self.rpu_device_vec_) - 1].decayWeights__4(weights, alpha, bias_no_decay)

    def driftWeights__2(self, weights, time_since_last_call, rng):
        if not self.fully_hidden_:
            VectorRPUDevice.driftWeights__2(self, weights, time_since_last_call, rng)
        else:
            for k in range(len(self.rpu_device_vec_) - 1):
                self.rpu_device_vec_[k].driftWeights__2(self.weights_vec_[k], time_since_last_call, rng)
            self.rpu_device_vec_[len(self.rpu_device_vec_) - 1].driftWeights__2(weights, time_since_last_call, rng)

    def diffuseWeights__2(self, weights, rng):
        if not self.fully_hidden_:
            VectorRPUDevice.diffuseWeights__2(self, weights, rng)
        else:
            for k in range(len(self.rpu_device_vec_) - 1):
                self.rpu_device_vec_[k].diffuseWeights__2(self.weights_vec_[k], rng)
            self.rpu_device_vec_[len(self.rpu_device_vec_) - 1].diffuseWeights__2(weights, rng)

    def clipWeights__4(self, weights, clip):
        if not self.fully_hidden_:
            VectorRPUDevice.clipWeights__4(self, weights, clip)
        else:
            for k in range(len(self.rpu_device_vec_) - 1):
                self.rpu_device_vec_[k].clipWeights__4(self.weights_vec_[k], clip)
            self.rpu_device_vec_[len(self.rpu_device_vec_) - 1].clipWeights__4(weights, clip)

    def resetCols__2(self, weights, start_col, n_cols, reset_prob, rng):
        self.rpu_device_vec_[0].resetCols__2(self.weights_vec_[0], start_col, n_cols, reset_prob, rng)
        self.reduceToWeights(weights)

    def getDeviceParameter__2(self, weights, data_ptrs):
        if self.fully_hidden_:
            copy__2(self.size_, weights[0], 1, self.weights_vec_[self.n_devices_ - 1][0], 1)
        VectorRPUDevice.getDeviceParameter__2(self, weights, data_ptrs)

    def setDeviceParameter__2(self, out_weights, data_ptrs):
        VectorRPUDevice.setDeviceParameter__2(self, out_weights, data_ptrs)
        if self.fully_hidden_:
            copy__2(self.size_, self.weights_vec_[self.n_devices_ - 1][0], 1, out_weights[0], 1)

    def finishUpdateCycle(self, weights, up, current_lr, m_batch_info):
        VectorRPUDevice.finishUpdateCycle(self, weights, up, current_lr, m_batch_info)
        self.last_weight_ = weights if self.fully_hidden_ else None
        for j in range(self.n_devices_):
            every = self.getTransferEvery(j, m_batch_info, up)
            if every > 0 and self.current_update_idx_ % every == 0:
                self.transfer__2(min(j + 1, self.n_devices_ - 1), j, current_lr, m_batch_info)
        self.reduceToWeights(weights)

    def getPulseCountLearningRate(self, learning_rate, current_m_batch, up):
        par = self.getPar()
        if par.fast_lr > 0:
            if par.scale_fast_lr:
                return par.fast_lr * learning_rate
            else:
                return par.fast_lr
        else:
            return learning_rate

    def getTransferEvery(self, from_device_idx, m_batch, up):
        if self.getPar().units_in_mbatch:
            return max(to_int(to_int(m_ceil(self.transfer_every_[from_device_idx] * m_batch))), 0)
        else:
            return max(to_int(to_int(m_round(self.transfer_every_[from_device_idx]))), 0)

    def setTransferVecs(self, transfer_vecs):
        in_size = self.getPar().getInSize()
        self.transfer_vecs_.resize(in_size * in_size)
        for t__1 in range(len(self.transfer_vecs_)):
            self.transfer_vecs_[t__1] = 0
        if transfer_vecs is None:
            for i in range(0, len(self.transfer_vecs_), in_size + 1):
                self.transfer_vecs_[i] = 1
        else:
            for i in range(len(self.transfer_vecs_)):
                self.transfer_vecs_[i] = transfer_vecs[i]

    def transfer__2(self, to_device_idx, from_device_idx, current_lr, m_batch_info):
        i_slice = self.current_slice_indices_[from_device_idx]
        par = self.getPar()
        in_size = par.getInSize()
        if par.random_selection:
            i_slice = max(min(to_int(to_int(m_floor(self.rw_rng_.sampleUniform__1() * in_size))), in_size - 1), 0)
        tvec = ptr_add(self.transfer_vecs_, i_slice * in_size)
        n_rest = in_size - i_slice
        lr = par.getTransferLR(to_device_idx, from_device_idx, current_lr)
        n_transfer = min(par.n_reads_per_transfer, in_size)
        if n_rest < n_transfer:
            self.readAndUpdate(to_device_idx, from_device_idx, lr, tvec, n_rest, par.with_reset_prob, i_slice, m_batch_info)
            self.readAndUpdate(to_device_idx, from_device_idx, lr, self.transfer_vecs_, n_transfer - n_rest, par.with_reset_prob, 0, m_batch_info)
        else:
            self.readAndUpdate(to_device_idx, from_device_idx, lr, tvec, n_transfer, par.with_reset_prob, i_slice, m_batch_info)
        self.current_slice_indices_[from_device_idx] = (i_slice + n_transfer) % in_size

    def readAndUpdate(self, to_device_idx, from_device_idx, lr, vec, n_vec, reset_prob, i_slice, m_batch_info):
        if lr == 0:
            return
        if to_device_idx == from_device_idx:
            return
        par = self.getPar()
        in_size = par.getInSize()
        out_size = par.getOutSize()
        self.transfer_tmp_.resize(out_size)
        for i in range(n_vec):
            v = ptr_add(vec, i * in_size)
            self.readVector(from_device_idx, v, self.transfer_tmp_, -1)
            if self.rw_rng_.sampleUniform__1() < reset_prob and par.transfer_columns:
                W_from = self.getDeviceWeights(from_device_idx)
                self.rpu_device_vec_[from_device_idx].resetCols__2(W_from, i_slice + i, 1, 1, self.rw_rng_)
            self.writeVector(to_device_idx, v, self.transfer_tmp_, lr, n_vec)

    def writeVector(self, device_idx, in_vec, out_vec, lr, m_batch_info):
        W = self.getDeviceWeights(device_idx)
        if self.getPar().transfer_columns:
            self.transfer_pwu_.updateVectorWithDevice(W, in_vec, 1, out_vec, 1, lr, m_batch_info, ptr_add(self.rpu_device_vec_, device_idx))
        else:
            self.transfer_pwu_.updateVectorWithDevice(W, out_vec, 1, in_vec, 1, lr, m_batch_info, ptr_add(self.rpu_device_vec_, device_idx))

    def readVector(self, device_idx, in_vec, out_vec, alpha):
        W = self.getDeviceWeights(device_idx)
        if self.getPar().transfer_columns:
            self.transfer_fb_pass_.forwardVector__2(W, in_vec, 1, out_vec, 1, alpha, False)
        else:
            self.transfer_fb_pass_.backwardVector__2(W, in_vec, 1, out_vec, 1, alpha)

    def doSparseUpdate(self, weights, i, x_signed_indices, x_count, d_sign, rng):
        self.rpu_device_vec_[0].doSparseUpdate(self.weights_vec_[0], i, x_signed_indices, x_count, d_sign, rng)

    def doDenseUpdate(self, weights, coincidences, rng):
        self.rpu_device_vec_[0].doDenseUpdate(self.weights_vec_[0], coincidences, rng)

    def getTransferFBPass(self):
        return self.transfer_fb_pass_

    def dumpExtra(self, extra, prefix):
        VectorRPUDevice.dumpExtra(self, extra, prefix)
        state = make_state_t()
        insert__9(state, 'current_slice_indices', self.current_slice_indices_)
        insert__8(state, 'transfer_every', self.transfer_every_)
        self.transfer_fb_pass_.dumpExtra(state, 'transfer_fb_pass')
        self.transfer_pwu_.dumpExtra(state, 'transfer_pwu')
        insertWithPrefix(extra, state, prefix)

    def loadExtra(self, extra, prefix, strict):
        VectorRPUDevice.loadExtra(self, extra, prefix, strict)
        state = selectWithPrefix(extra, prefix)
        load__9(state, 'current_slice_indices', self.current_slice_indices_, strict)
        if state.count(make_key_type('transfer_vecs')) != 0:
            load__8(state, 'transfer_vecs', self.transfer_vecs_, strict)
        if state.count(make_key_type('transfer_every')) != 0:
            load__8(state, 'transfer_every', self.transfer_every_, strict)
        self.transfer_fb_pass_.loadExtra(state, 'transfer_fb_pass', strict)
        self.transfer_pwu_.loadExtra(state, 'transfer_pwu', strict)

    def populate__20(self, p, rng):
        VectorRPUDevice.populate__21(self, p, rng)
        par = self.getPar()
        par.initializeWithSize(self.x_size_, self.d_size_)
        shared_rng = make_shared_shared_ptr__NonArray_RNG(0)
        self.transfer_fb_pass_ = make_unique_unique_ptr_ForwardBackwardPassIOManaged(self.x_size_, self.d_size_, shared_rng)
        self.transfer_fb_pass_.populateFBParameter(par.transfer_io, par.transfer_io)
        self.transfer_pwu_ = make_unique_unique_ptr_PulsedRPUWeightUpdater(self.x_size_, self.d_size_, shared_rng)
        self.transfer_pwu_.setUpPar(par.transfer_up)
        self.reduce_weightening_.resize(self.n_devices_)
        for k in range(self.n_devices_):
            self.reduce_weightening_[k] = par.gamma_vec[k]
        self.resetCounters(False)
        self.setTransferVecs(None)
        self.transfer_every_ = copy(par.transfer_every_vec)
        self.fully_hidden_ = self.getPar().fullyHidden()

    def reduceToWeights(self, weights):
        if not self.fully_hidden_:
            VectorRPUDevice.reduceToWeights(self, weights)

    def getDeviceWeights(self, device_idx):
        if self.fully_hidden_ and device_idx == self.n_devices_ - 1:
            return self.last_weight_
        else:
            return self.weights_vec_[device_idx]

    def resetCounters(self, force):
        self.current_slice_indices_.resize(self.n_devices_)
        for t__1 in range(len(self.current_slice_indices_)):
            self.current_slice_indices_[t__1] = 0
        return VectorRPUDevice.resetCounters(self, force)



@of("rpucuda.rpu_transfer_device.TransferRPUDeviceMetaParameter")
class TransferRPUDeviceMetaParameter:
    gamma = 0
    transfer_every = 1
    units_in_mbatch = False
    n_reads_per_transfer = 1
    with_reset_prob = 0
    no_self_transfer = True
    random_selection = False
    fast_lr = 0
    transfer_lr = 1
    scale_transfer_lr = True
    scale_fast_lr = True
    transfer_columns = True
    _in_size = 0
    _out_size = 0
    def ctor__1(self):
        pass

    def ctor__2(self, dp, n_devices):
        VectorRPUDeviceMetaParameter.ctor__2(self, dp, n_devices)

    def initialize__1(self):
        pass

    def getInSize(self):
        return self._in_size

    def getOutSize(self):
        return self._out_size

    def getName(self):
        return ss

    def createDevice(self, x_size, d_size, rng):
        return make_TransferRPUDevice(x_size, d_size, self, rng)

    def clone(self):
        return make_TransferRPUDeviceMetaParameter(self)

    def implements(self):
        return DeviceUpdateType.Transfer

    def calcWeightGranularity(self):
        weight_granularity = 0
        if len(self.vec_par) > 0:
            weight_granularity = self.vec_par[0].calcWeightGranularity()
        return weight_granularity

    def calcNumStates(self):
        num_states = 0
        if len(self.vec_par) > 0:
            num_states = self.vec_par[0].calcNumStates()
        return num_states

    def fullyHidden(self):
        return not self.gamma != 0 and self.gamma_vec[len(self.gamma_vec) - 1] == 1

    def ctor__3(self, dp_fast, dp_rest, n_total_devices):
        self.vec_par.clear()
        if n_total_devices < 2:
            raise RuntimeError()
        self.appendVecPar(dp_fast)
        for i in range(1, n_total_devices):
            self.appendVecPar(dp_rest)

    def initializeWithSize(self, x_size, d_size):
        AbstractRPUDeviceMetaParameter.initialize__1(self)
        n_devices = len(self.vec_par)
        if n_devices < 2:
            raise RuntimeError()
        if self.transfer_columns:
            self._in_size = x_size
            self._out_size = d_size
        else:
            self._in_size = d_size
            self._out_size = x_size
        self.update_policy = VectorDeviceUpdatePolicy.SingleFixed
        self.first_update_idx = 0
        self.same_context = True
        impl = self.vec_par[1].implements()
        for i in range(2, n_devices):
            if impl != self.vec_par[i].implements():
                raise RuntimeError()
        if len(self.gamma_vec) > 0:
            if len(self.gamma_vec) != n_devices:
                raise RuntimeError()
            g = 0
            for i in range(n_devices - 1):
                g += self.gamma_vec[i]
            if self.gamma_vec[n_devices - 1] == 0:
                raise RuntimeError()
            self.gamma = g
        if len(self.gamma_vec) == 0:
            self.gamma_vec.resize(n_devices)
            for i in range(n_devices):
                self.gamma_vec[n_devices - i - 1] = m_pow(self.gamma, i)
        if len(self.transfer_lr_vec) == 0:
            self.transfer_lr_vec.resize(n_devices)
            for t__1 in range(len(self.transfer_lr_vec)):
                self.transfer_lr_vec[t__1] = self.transfer_lr
        if len(self.transfer_lr_vec) != n_devices:
            raise RuntimeError()
        if self.n_reads_per_transfer > self._in_size:
            self.n_reads_per_transfer = self._in_size
        if len(self.transfer_every_vec) == 0:
            n = self.transfer_every
            for i in range(n_devices):
                self.transfer_every_vec.push_back(n)
                n *= self._out_size / self.n_reads_per_transfer
            if self.no_self_transfer:
                self.transfer_every_vec[n_devices - 1] = 0
        if len(self.transfer_every_vec) != n_devices:
            raise RuntimeError()
        if self.with_reset_prob > 0 and (not self.transfer_columns):
            raise RuntimeError()
        if self.transfer_columns:
            self.transfer_io.initializeForForward(x_size, d_size)
        else:
            self.transfer_io.initializeForBackward(x_size, d_size)
        if self.transfer_io.bound_management != BoundManagementType.None_:
            self.transfer_io.bound_management = BoundManagementType.None_
        if self.transfer_io.noise_management != NoiseManagementType.None_:
            self.transfer_io.noise_management = NoiseManagementType.None_
        self.transfer_up.initialize__1()

    def getTransferLR(self, to_device_idx, from_device_idx, current_lr):
        lr = self.transfer_lr_vec[from_device_idx]
        if self.scale_transfer_lr:
            lr *= current_lr
        return lr


@of("rpucuda.rpu_chopped_transfer_device.swap__3")
def swap__3(a, b):
    swap__2(a, b)
    a.in_chopper_, b.in_chopper_ = (b.in_chopper_, a.in_chopper_)
    a.out_chopper_, b.out_chopper_ = (b.out_chopper_, a.out_chopper_)
    a.m_x_, b.m_x_ = (b.m_x_, a.m_x_)
    a.m_d_, b.m_d_ = (b.m_d_, a.m_d_)
    a.d_sparsity_, b.d_sparsity_ = (b.d_sparsity_, a.d_sparsity_)
    a.x_signed_indices_tmp_, b.x_signed_indices_tmp_ = (b.x_signed_indices_tmp_, a.x_signed_indices_tmp_)
    a.transfer_counter_, b.transfer_counter_ = (b.transfer_counter_, a.transfer_counter_)


@of("rpucuda.rpu_chopped_transfer_device.ChoppedTransferRPUDevice")
class ChoppedTransferRPUDevice:
    m_x_ = 0
    m_d_ = 0
    d_sparsity_ = 0
    transfer_counter_ = 0
    tmp_count_lr_ = 1
    def ctor__1(self):
        pass

    def ctor__2(self, x_sz, d_sz):
        BufferedTransferRPUDevice.ctor__2(self, x_sz, d_sz)

    def ctor__3(self, x_sz, d_sz, par, rng):
        self.ctor__2(x_sz, d_sz)
        self.populate__2(par, rng)

    def dumpExtra(self, extra, prefix):
        TransferRPUDevice.dumpExtra(self, extra, prefix)
        state = make_state_t()
        insert__6(state, 'in_chopper', self.in_chopper_)
        insert__6(state, 'out_chopper', self.out_chopper_)
        insert__3(state, 'tmp_count_lr', self.tmp_count_lr_)
        insert__3(state, 'm_x', self.m_x_)
        insert__3(state, 'm_d', self.m_d_)
        insert__3(state, 'd_sparsity', self.d_sparsity_)
        insert(state, 'transfer_counter', self.transfer_counter_)
        insertWithPrefix(extra, state, prefix)

    def loadExtra(self, extra, prefix, strict):
        TransferRPUDevice.loadExtra(self, extra, prefix, strict)
        state = selectWithPrefix(extra, prefix)
        load__6(state, 'in_chopper', self.in_chopper_, strict)
        load__6(state, 'out_chopper', self.out_chopper_, strict)
        self.tmp_count_lr_ = load__3(state, 'tmp_count_lr', self.tmp_count_lr_, strict)
        self.m_x_ = load__3(state, 'm_x', self.m_x_, strict)
        self.m_d_ = load__3(state, 'm_d', self.m_d_, strict)
        self.d_sparsity_ = load__3(state, 'd_sparsity', self.d_sparsity_, strict)
        self.transfer_counter_ = load(state, 'transfer_counter', self.transfer_counter_, strict)

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def clone(self):
        return make_ChoppedTransferRPUDevice(self)

    def readAndUpdate(self, to_device_idx, from_device_idx, lr, vec, n_vec, reset_prob_in, i_slice_start, m_batch_info):
        if lr == 0:
            return
        if to_device_idx != 1 and from_device_idx != 1:
            raise RuntimeError()
        if n_vec != 1:
            raise RuntimeError()
        FROM_DEVICE_IDX = 0
        TO_DEVICE_IDX = 1
        par = self.getPar()
        in_size = par.getInSize()
        out_size = par.getOutSize()
        self.transfer_tmp_.resize(out_size)
        v_out = self.transfer_tmp_
        from_weight_granularity = self.rpu_device_vec_[FROM_DEVICE_IDX].getWeightGranularity()
        to_weight_granularity = self.rpu_device_vec_[TO_DEVICE_IDX].getWeightGranularity()
        sub_momentum = 1 - max(min(par.momentum, 1), 0)
        lr_scale = par.getTransferLRScale(from_weight_granularity, to_weight_granularity, lr, self.getCurrentCountLR(), m_batch_info)
        forget_buffer = par.forget_buffer
        max_steps = self.transfer_pwu_.getUpPar().desired_BL
        use_cols = par.transfer_columns
        w_inc = in_size if use_cols else 1
        no_buffer = par.no_buffer
        fp_w = self.transfer_buffer_vec_[FROM_DEVICE_IDX]
        v_in = vec
        self.readVector(FROM_DEVICE_IDX, v_in, v_out, 1)
        i_w = i_slice_start if use_cols else self.x_size_ * i_slice_start
        non_zero_count = 0
        in_chop = self.in_chopper_[i_slice_start] is not None
        for j in range(out_size):
            omega = 0 if no_buffer else fp_w[i_w]
            val = v_out[j] * lr_scale
            val_signed = -val if in_chop != (self.out_chopper_[j] is not None) else val
            omega += val_signed
            n_steps = 0
            if abs(omega) >= 1:
                n_steps = max(min(truncf(omega), max_steps), -max_steps)
                if forget_buffer:
                    omega *= par.momentum
                else:
                    omega -= sub_momentum * n_steps
                non_zero_count += 1
            fp_w[i_w] = omega
            v_out[j] = -n_steps
            i_w += w_inc
        if non_zero_count > 0:
            self.writeVector(TO_DEVICE_IDX, v_in, v_out, par.getWriteLR(to_weight_granularity), 1)
        if par.in_chop_prob > 0:
            if par.in_chop_random != 0:
                if self.rw_rng_.sampleUniform__1() < par.in_chop_prob:
                    self.in_chopper_[i_slice_start] = not self.in_chopper_[i_slice_start] is not None
            else:
                n_samples = max(to_int(to_int(m_ceil(1 / par.in_chop_prob))), 2)
                if self.transfer_counter_ % n_samples + 1 == n_samples:
                    self.in_chopper_[i_slice_start] = not self.in_chopper_[i_slice_start] is not None
        if i_slice_start == in_size - 1 and par.out_chop_prob > 0:
            for j in range(out_size):
                if self.rw_rng_.sampleUniform__1() < par.out_chop_prob:
                    self.out_chopper_[j] = not self.out_chopper_[j] is not None
        if i_slice_start == in_size - 1:
            self.transfer_counter_ += 1

    def doSparseUpdate(self, weights, i, x_signed_indices, x_count, d_sign, rng):
        par = self.getPar()
        self.x_signed_indices_tmp_.resize(x_count)
        d_chopper = self.out_chopper_ if par.transfer_columns else self.in_chopper_
        x_chopper = self.in_chopper_ if par.transfer_columns else self.out_chopper_
        for j in range(x_count):
            idx_signed = x_signed_indices[j]
            idx = -idx_signed - 1 if idx_signed < 0 else idx_signed - 1
            self.x_signed_indices_tmp_[j] = -x_signed_indices[j] if x_chopper[idx] else x_signed_indices[j]
        TransferRPUDevice.doSparseUpdate(self, weights, i, self.x_signed_indices_tmp_, x_count, -d_sign if d_chopper[i] else d_sign, rng)

    def doDenseUpdate(self, weights, coincidences, rng):
        par = self.getPar()
        d_chopper = self.out_chopper_ if par.transfer_columns else self.in_chopper_
        x_chopper = self.in_chopper_ if par.transfer_columns else self.out_chopper_
        idx = 0
        for i in range(self.d_size_):
            dc = d_chopper[i]
            for j in range(self.x_size_):
                c = x_chopper[j] != dc
                coincidences[idx] = -coincidences[idx] if c else coincidences[idx]
                idx += 1
        TransferRPUDevice.doDenseUpdate(self, weights, coincidences, rng)

    def reduceToWeights(self, weights):
        par = self.getPar()
        if par.fullyHidden():
            return
        TransferRPUDevice.reduceToWeights(self, weights)
        gamma = par.gamma_vec[0]
        if gamma == 0:
            return
        A = self.weights_vec_[0][0]
        size = self.x_size_ * self.d_size_
        d_chopper = self.out_chopper_ if par.transfer_columns else self.in_chopper_
        x_chopper = self.in_chopper_ if par.transfer_columns else self.out_chopper_
        for idx in range(size):
            d_idx = idx // self.x_size_
            x_idx = idx % self.x_size_
            chop = -1 if x_chopper[x_idx] != d_chopper[d_idx] else 1
            weights[0][idx] += gamma * (chop - 1) * A[idx]

    def initUpdateCycle(self, weights, up, current_lr, m_batch_info, x_input, x_inc, d_input, d_inc):
        par = self.getPar()
        if par.auto_scale:
            x_abs_max = Find_Absolute_Max(x_input, self.x_size_, x_inc)
            d_abs_max = Find_Absolute_Max(d_input, self.d_size_, d_inc)
            self.m_x_ = par.updateAutoScale(self.m_x_, x_abs_max, m_batch_info)
            self.m_d_ = par.updateAutoScale(self.m_d_, d_abs_max, m_batch_info)
        if up.d_sparsity:
            self.d_sparsity_ = par.updateAutoScale(self.d_sparsity_, up._d_sparsity, m_batch_info)
        VectorRPUDevice.initUpdateCycle(self, weights, up, current_lr, m_batch_info, x_input, x_inc, d_input, d_inc)

    def getPulseCountLearningRate(self, lr, current_m_batch, up):
        par = self.getPar()
        count_lr = None
        if par.auto_scale and par.fast_lr > 0:
            transfer_every = self.getTransferEvery(0, current_m_batch, up)
            count_lr = par.getPulseCountAutoLR(self.m_x_, self.m_d_, self.d_sparsity_, self.rpu_device_vec_[0].getWeightGranularity(), transfer_every, up)
            if par.scale_fast_lr:
                count_lr *= lr
        else:
            count_lr = TransferRPUDevice.getPulseCountLearningRate(self, lr, current_m_batch, up)
        self.setCurrentCountLR(count_lr)
        return count_lr

    def getMx(self):
        return self.m_x_

    def getMd(self):
        return self.m_d_

    def populate__2(self, p, rng):
        BufferedTransferRPUDevice.populate__1(self, p, rng)
        par = self.getPar()
        self.in_chopper_.resize(par.getInSize(), False)
        self.out_chopper_.resize(par.getOutSize(), False)
        self.m_x_ = 0
        self.m_d_ = 0
        self.d_sparsity_ = 0
        self.transfer_counter_ = 0

    def getTransferEvery(self, didx, m_batch, up):
        par = self.getPar()
        if par.usesAutoTransferEvery():
            t = par.getAutoTransferEvery(self.rpu_device_vec_[didx].getNumStates(), up)
            return max(1, to_int(to_int(m_round(t))))
        return TransferRPUDevice.getTransferEvery(self, didx, m_batch, up)

    def getCurrentCountLR(self):
        return self.tmp_count_lr_

    def setCurrentCountLR(self, count_lr):
        self.tmp_count_lr_ = count_lr

    def getCurrentGradStrength(self):
        return self.m_x_ * self.m_d_



@of("rpucuda.rpu_chopped_transfer_device.ChoppedTransferRPUDeviceMetaParameter")
class ChoppedTransferRPUDeviceMetaParameter:
    in_chop_prob = 1
    in_chop_random = True
    out_chop_prob = 0
    auto_scale = False
    correct_gradient_magnitudes = False
    auto_momentum = 0.99
    auto_granularity = 0
    buffer_granularity = 1
    no_buffer = False
    transfer_flexible_insize = True
    transfer_max_vec_chunk_size = 10000000
    def ctor__1(self):
        BufferedTransferRPUDeviceMetaParameter.ctor__1(self)
        self.initDefaults()

    def ctor__2(self, dp, n_devices):
        BufferedTransferRPUDeviceMetaParameter.ctor__2(self, dp, n_devices)
        self.initDefaults()

    def ctor__3(self, dp_fast, dp_rest, n_total_devices):
        BufferedTransferRPUDeviceMetaParameter.ctor__3(self, dp_fast, dp_rest, n_total_devices)
        self.initDefaults()

    def initDefaults(self):
        self.n_reads_per_transfer = 1

    def checkSupported(self):
        if not self.singleDeviceUpdate():
            raise RuntimeError()
        if not self.same_context:
            raise RuntimeError()
        if self.n_reads_per_transfer != 1 or self.random_selection != False or self.with_reset_prob > 0:
            raise RuntimeError()

    def getTransferLRScale(self, from_weight_granularity, to_weight_granularity, lr, count_lr, current_m_batch):
        bg = self.getBufferGranularity(from_weight_granularity, current_m_batch)
        lr_scale = None
        if self.correct_gradient_magnitudes:
            bg *= to_weight_granularity / from_weight_granularity
            lr_scale = abs(lr) / count_lr / bg
        else:
            lr_scale = abs(lr) / bg
        return lr_scale

    def getWriteLR(self, weight_granularity):
        return self.step * weight_granularity

    def getPulseCountAutoLR(self, m_x, m_d, d_sparsity, weight_granularity, transfer_every, up):
        count_lr = None
        g = up.desired_BL * weight_granularity
        count_lr = self.fast_lr * g
        if m_x > 0 and m_d > 0:
            count_lr /= m_x * m_d
        return count_lr

    def usesAutoTransferEvery(self):
        return self.transfer_every < 0

    def getAutoTransferEvery(self, n_states, up):
        return n_states / self.getInSize() * abs(self.transfer_every)

    def getBufferGranularity(self, weight_granularity, current_m_batch):
        bg = self.buffer_granularity if self.buffer_granularity > 0 else 1
        if self.auto_granularity > 0:
            period = self.getInSize() * abs(self.transfer_every)
            bg *= weight_granularity * self.auto_granularity / period
        else:
            bg *= weight_granularity
        return bg

    def updateAutoScale(self, m, new_val, m_batch):
        if m <= 0:
            m = new_val
            return m
        if new_val <= 0:
            return m
        tau = (1 - self.auto_momentum) / m_batch
        m = (1 - tau) * m + tau * new_val
        return m

    def getName(self):
        return ss

    def createDevice(self, x_size, d_size, rng):
        return make_ChoppedTransferRPUDevice(x_size, d_size, self, rng)

    def clone(self):
        return make_ChoppedTransferRPUDeviceMetaParameter(self)

    def implements(self):
        return DeviceUpdateType.ChoppedTransfer


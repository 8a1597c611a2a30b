@of("rpucuda.rpu_dynamic_transfer_device.swap__6")
def swap__6(a, b):
    swap__3(a, b)
    a.running_mean_, b.running_mean_ = (b.running_mean_, a.running_mean_)
    a.past_mean_, b.past_mean_ = (b.past_mean_, a.past_mean_)
    a.in_chopper_switched_, b.in_chopper_switched_ = (b.in_chopper_switched_, a.in_chopper_switched_)
    a.count_lr_scale_, b.count_lr_scale_ = (b.count_lr_scale_, a.count_lr_scale_)
    a.feedback_data_, b.feedback_data_ = (b.feedback_data_, a.feedback_data_)
    a.feedback_data_idx_, b.feedback_data_idx_ = (b.feedback_data_idx_, a.feedback_data_idx_)


@of("rpucuda.rpu_dynamic_transfer_device.DynamicTransferRPUDevice")
class DynamicTransferRPUDevice:
    count_lr_scale_ = 1
    feedback_data_idx_ = 0
    def ctor__1(self):
        pass

    def ctor__2(self, x_sz, d_sz):
        ChoppedTransferRPUDevice.ctor__2(self, x_sz, d_sz)

    def ctor__3(self, x_sz, d_sz, par, rng):
        self.ctor__2(x_sz, d_sz)
        self.populate__5(par, rng)

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def clone(self):
        return make_DynamicTransferRPUDevice(self)

    def readAndUpdate(self, to_device_idx, from_device_idx, lr, vec, n_vec, reset_prob_in, i_slice_start, m_batch_info):
        if lr == 0:
            return
        if n_vec != 1:
            raise RuntimeError()
        if to_device_idx != 1 and from_device_idx != 1:
            raise RuntimeError()
        FROM_DEVICE_IDX = 0
        TO_DEVICE_IDX = 1
        par = self.getPar()
        in_size = par.getInSize()
        out_size = par.getOutSize()
        to_weight_granularity = self.rpu_device_vec_[TO_DEVICE_IDX].getWeightGranularity()
        from_weight_granularity = self.rpu_device_vec_[FROM_DEVICE_IDX].getWeightGranularity()
        lr_abs = abs(lr)
        use_cols = par.transfer_columns
        w_inc = in_size if use_cols else 1
        i_w_start = i_slice_start if use_cols else self.x_size_ * i_slice_start
        mean_w = self.running_mean_
        v_in = vec
        self.transfer_tmp_.resize(out_size)
        v_out = self.transfer_tmp_
        self.readVector(FROM_DEVICE_IDX, v_in, v_out, 1)
        n_samples = par.getNumInChopSamples()
        current_sample = self.transfer_counter_ % n_samples + 1
        sample_momentum = min(par.tail_weightening / n_samples, 1)
        previously_switched = self.in_chopper_switched_[i_slice_start] is not None
        self.in_chopper_switched_[i_slice_start] = False
        past_mean_w = self.past_mean_
        fp_w = self.transfer_buffer_vec_[FROM_DEVICE_IDX]
        lr_scale = par.getTransferLRScale(from_weight_granularity, to_weight_granularity, lr_abs, self.getCurrentCountLR(), m_batch_info)
        if par.experimental_correct_accumulation:
            lr_scale /= min(current_sample, 1 / from_weight_granularity)
        max_steps = self.transfer_pwu_.getUpPar().desired_BL
        buffer_cap = max_steps * par.buffer_cap
        in_chop = self.in_chopper_[i_slice_start] is not None
        previous_in_chop = in_chop
        if previously_switched:
            previous_in_chop = not previous_in_chop
        forget_buffer = par.forget_buffer
        non_zero_count = 0
        momentum = par.momentum
        i_w = i_w_start
        for j in range(out_size):
            val = v_out[j]
            n_steps = 0
            omega = fp_w[i_w]
            mu_past = past_mean_w[i_w]
            if previously_switched:
                m_w = mean_w[i_w]
                if par.experimental_fast_lr_feedback:
                    past_signal = abs(past_mean_w[i_w] - m_w)
                    self.feedback_data_[0] = max(self.feedback_data_[0], past_signal)
                mu_past = m_w
                past_mean_w[i_w] = mu_past
            dw = val - mu_past
            dw = -dw if in_chop != (self.out_chopper_[j] is not None) else dw
            omega += dw * lr_scale
            if abs(omega) >= 1:
                n_steps = max(min(truncf(omega), max_steps), -max_steps)
                if forget_buffer:
                    omega *= momentum
                else:
                    omega -= (1 - momentum) * n_steps
                    if buffer_cap > 0:
                        omega = min(max(omega, -buffer_cap), buffer_cap)
                non_zero_count += 1
            fp_w[i_w] = omega
            v_out[j] = -n_steps
            mean_w[i_w] = mean_w[i_w] * (1 - sample_momentum) + val * sample_momentum
            i_w += w_inc
        if non_zero_count > 0 and self.transfer_counter_ > n_samples:
            write_lr = par.getWriteLR(to_weight_granularity)
            self.writeVector(TO_DEVICE_IDX, v_in, v_out, write_lr, 1)
        switch_choppers = current_sample == n_samples
        if par.in_chop_random != 0:
            if self.rw_rng_.sampleUniform__1() < par.in_chop_prob:
                switch_choppers = True
        if switch_choppers:
            self.in_chopper_[i_slice_start] = not self.in_chopper_[i_slice_start] is not None
            self.in_chopper_switched_[i_slice_start] = True
        if i_slice_start == in_size - 1:
            self.transfer_counter_ += 1

    def getDPNames(self, names):
        VectorRPUDevice.getDPNames(self, names)
        if not self.n_devices_ != 0:
            return
        if self.n_devices_ != 2:
            raise RuntimeError()
        s1 = 'buffered_FP_weight'
        names.push_back(s1)
        s2 = 'running_mean_weight'
        names.push_back(s2)
        s3 = 'past_mean_weight'
        names.push_back(s3)

    def getDeviceParameter__2(self, weights, data_ptrs):
        names = make_vector_string()
        self.getDPNames(names)
        if len(data_ptrs) < len(names):
            raise RuntimeError()
        if not self.n_devices_ != 0:
            return
        if self.n_devices_ != 2:
            raise RuntimeError()
        TransferRPUDevice.getDeviceParameter__2(self, weights, data_ptrs)
        add_n = 3
        m = len(names) - add_n
        for i in range(self.size_):
            data_ptrs[m][i] = self.transfer_buffer_vec_[0][i]
            data_ptrs[m + 1][i] = self.running_mean_[i]
            data_ptrs[m + 2][i] = self.past_mean_[i]

    def setDeviceParameter__2(self, out_weights, data_ptrs):
        names = make_vector_string()
        self.getDPNames(names)
        if len(data_ptrs) < len(names):
            raise RuntimeError()
        TransferRPUDevice.setDeviceParameter__2(self, out_weights, data_ptrs)
        add_n = 3
        m = len(names) - add_n
        for i in range(self.size_):
            self.transfer_buffer_vec_[0][i] = data_ptrs[m][i]
            self.running_mean_[i] = data_ptrs[m + 1][i]
            self.past_mean_[i] = data_ptrs[m + 2][i]

    def getHiddenWeightsCount(self):
        if not self.n_devices_ != 0:
            return 0
        if self.n_devices_ != 2:
            raise RuntimeError()
        add_n = 3
        m = VectorRPUDevice.getHiddenWeightsCount(self)
        return m + add_n

    def setHiddenWeights(self, data):
        if not self.n_devices_ != 0:
            return
        if self.n_devices_ != 2:
            raise RuntimeError()
        VectorRPUDevice.setHiddenWeights(self, data)
        add_n = 3
        offset = (self.getHiddenWeightsCount() - add_n) * self.size_
        if len(data) < offset + add_n * self.size_:
            raise RuntimeError()
        size = self.size_
        for i in range(size):
            self.transfer_buffer_vec_[0][i] = data[offset + i]
            self.running_mean_[i] = data[offset + i + size]
            self.past_mean_[i] = data[offset + i + 2 * size]

    def getPulseCountLearningRate(self, lr, current_m_batch, up):
        count_lr = ChoppedTransferRPUDevice.getPulseCountLearningRate(self, lr, current_m_batch, up)
        self.count_lr_scale_, self.feedback_data_idx_ = self.getPar().computeCountLRFeedback(self.count_lr_scale_, self.feedback_data_, self.feedback_data_idx_, self.current_update_idx_, current_m_batch)
        count_lr *= self.count_lr_scale_
        self.setCurrentCountLR(count_lr)
        return count_lr

    def dumpExtra(self, extra, prefix):
        ChoppedTransferRPUDevice.dumpExtra(self, extra, prefix)
        state = make_state_t()
        insert__6(state, 'in_chopper_switched', self.in_chopper_switched_)
        insert__3(state, 'count_lr_scale', self.count_lr_scale_)
        insert__8(state, 'feedback_data', self.feedback_data_)
        insert(state, 'feedback_data_idx', self.feedback_data_idx_)
        insertWithPrefix(extra, state, prefix)

    def loadExtra(self, extra, prefix, strict):
        ChoppedTransferRPUDevice.loadExtra(self, extra, prefix, strict)
        state = selectWithPrefix(extra, prefix)
        load__6(state, 'in_chopper_switched', self.in_chopper_switched_, strict)
        self.count_lr_scale_ = load__3(state, 'count_lr_scale', self.count_lr_scale_, strict)
        load__8(state, 'feedback_data', self.feedback_data_, strict)
        self.feedback_data_idx_ = load(state, 'feedback_data_idx', self.feedback_data_idx_, strict)

    def getPastMean(self):
        return self.past_mean_

    def getRunningMean(self):
        return self.running_mean_

    def setCountLRScale(self, count_lr_scale):
        self.count_lr_scale_ = count_lr_scale

    def getCountLRScale(self):
        return self.count_lr_scale_

    def getFeedbackData(self):
        return copy(self.feedback_data_)

    def getFeedbackIdx(self):
        return self.feedback_data_idx_

    def populate__5(self, p, rng):
        ChoppedTransferRPUDevice.populate__2(self, p, rng)
        par = self.getPar()
        weight_granularity = self.rpu_device_vec_[0].getWeightGranularity()
        self.running_mean_.resize(self.size_, 0)
        self.past_mean_.resize(self.size_, 0)
        self.in_chopper_switched_.resize(par.getInSize(), False)
        w_max = self.rpu_device_vec_[0].getNumStates() * weight_granularity / 2
        period = par.getInSize() * abs(par.transfer_every) * par.getNumInChopSamples()
        self.count_lr_scale_ = 1
        v = make_vector()
        v.resize(3)
        v[1] = min(max((w_max - weight_granularity) * par.experimental_feedback_target, weight_granularity), w_max)
        v[0] = 0
        v[2] = period * par.experimental_feedback_mod
        self.feedback_data_idx_ = 0
        self.feedback_data_ = copy(v)



@of("rpucuda.rpu_dynamic_transfer_device.DynamicTransferRPUDeviceMetaParameter")
class DynamicTransferRPUDeviceMetaParameter:
    tail_weightening = 1
    buffer_cap = 10
    experimental_correct_accumulation = False
    experimental_fast_lr_feedback = False
    experimental_feedback_target = 0.1
    experimental_feedback_mod = 1
    def ctor__1(self):
        ChoppedTransferRPUDeviceMetaParameter.ctor__1(self)
        self.initDefaults()

    def ctor__2(self, dp, n_devices):
        ChoppedTransferRPUDeviceMetaParameter.ctor__2(self, dp, n_devices)
        self.initDefaults()

    def ctor__3(self, dp_fast, dp_rest, n_total_devices):
        ChoppedTransferRPUDeviceMetaParameter.ctor__3(self, dp_fast, dp_rest, n_total_devices)
        self.initDefaults()

    def getNumInChopSamples(self):
        in_chop_freq = self.in_chop_prob
        n_samples = 2
        if in_chop_freq > 0:
            n_samples = max(to_int(to_int(m_ceil(1 / in_chop_freq))), 2)
        return n_samples

    def computeCountLRFeedback(self, count_lr_scale, data, previous_update_idx, current_update_idx, current_m_batch):
        if not self.experimental_fast_lr_feedback:
            return (count_lr_scale, previous_update_idx)
        if current_update_idx <= current_m_batch:
            previous_update_idx = 0
        if current_update_idx - previous_update_idx < to_int(to_int(data[2])):
            return (count_lr_scale, previous_update_idx)
        est_value = data[0]
        data[0] = 0
        previous_update_idx = current_update_idx
        if est_value == 0:
            return (count_lr_scale, previous_update_idx)
        count_lr_scale = count_lr_scale * data[1] / est_value
        return (count_lr_scale, previous_update_idx)

    def initDefaults(self):
        self.in_chop_random = False

    def checkSupported(self):
        ChoppedTransferRPUDeviceMetaParameter.checkSupported(self)
        if self.in_chop_prob <= 0:
            raise RuntimeError()
        if self.auto_momentum >= 1 or self.auto_momentum <= 0:
            raise RuntimeError()

    def getName(self):
        return ss

    def createDevice(self, x_size, d_size, rng):
        return make_DynamicTransferRPUDevice(x_size, d_size, self, rng)

    def clone(self):
        return make_DynamicTransferRPUDeviceMetaParameter(self)

    def implements(self):
        return DeviceUpdateType.DynamicTransfer


@of("rpucuda.rpu_pulsed_device.swap__21")
def swap__21(a, b):
    swap__22(a, b)
    a.w_scale_up_, b.w_scale_up_ = (b.w_scale_up_, a.w_scale_up_)
    a.w_scale_down_, b.w_scale_down_ = (b.w_scale_down_, a.w_scale_down_)
    a.w_max_bound_, b.w_max_bound_ = (b.w_max_bound_, a.w_max_bound_)
    a.w_min_bound_, b.w_min_bound_ = (b.w_min_bound_, a.w_min_bound_)
    a.w_decay_scale_, b.w_decay_scale_ = (b.w_decay_scale_, a.w_decay_scale_)
    a.w_diffusion_rate_, b.w_diffusion_rate_ = (b.w_diffusion_rate_, a.w_diffusion_rate_)
    a.w_persistent_, b.w_persistent_ = (b.w_persistent_, a.w_persistent_)
    a.w_reset_bias_, b.w_reset_bias_ = (b.w_reset_bias_, a.w_reset_bias_)
    a.containers_allocated_, b.containers_allocated_ = (b.containers_allocated_, a.containers_allocated_)


@of("rpucuda.rpu_pulsed_device.swap__22")
def swap__22(a, b):
    swap__30(a, b)
    a.weight_granularity_, b.weight_granularity_ = (b.weight_granularity_, a.weight_granularity_)
    a.num_states_, b.num_states_ = (b.num_states_, a.num_states_)


@of("rpucuda.rpu_pulsed_device.swap__23")
def swap__23(a, b):
    swap__31(a, b)


@of("rpucuda.rpu_pulsed_device.PulsedRPUDevice")
class PulsedRPUDevice:
    w_max_bound_ = None
    w_min_bound_ = None
    w_scale_up_ = None
    w_scale_down_ = None
    w_decay_scale_ = None
    w_diffusion_rate_ = None
    w_reset_bias_ = None
    w_persistent_ = None
    write_noise_rng_ = make_RealWorldRNG(0)
    containers_allocated_ = False
    def ctor__1(self):
        pass

    def clone(self):
        raise RuntimeError()

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def ctor__2(self, x_sz, d_sz):
        PulsedRPUDeviceBase.ctor__2(self, x_sz, d_sz)
        self.initialize__1()

    def getDPNames(self, names):
        names.clear()
        names.push_back('max_bound')
        names.push_back('min_bound')
        names.push_back('dwmin_up')
        names.push_back('dwmin_down')
        names.push_back('decay_scales')
        names.push_back('diffusion_rates')
        if not self.getPar().legacy_params:
            names.push_back('reset_bias')
            names.push_back('drift_nu')
        if self.getPar().usesPersistentWeight():
            names.push_back('persistent_weights')

    def getDeviceParameter__2(self, weights, data_ptrs):
        names = make_vector_string()
        self.getDPNames(names)
        if len(data_ptrs) < len(names):
            raise RuntimeError()
        n_drift = 0
        for i in range(self.size_):
            n = 0
            t__1 = n
            n += 1
            data_ptrs[t__1][i] = self.w_max_bound_[0][i]
            t__2 = n
            n += 1
            data_ptrs[t__2][i] = self.w_min_bound_[0][i]
            t__3 = n
            n += 1
            data_ptrs[t__3][i] = self.w_scale_up_[0][i]
            t__4 = n
            n += 1
            data_ptrs[t__4][i] = self.w_scale_down_[0][i]
            t__5 = n
            n += 1
            data_ptrs[t__5][i] = self.w_decay_scale_[0][i]
            t__6 = n
            n += 1
            data_ptrs[t__6][i] = self.w_diffusion_rate_[0][i]
            if not self.getPar().legacy_params:
                t__7 = n
                n += 1
                data_ptrs[t__7][i] = self.w_reset_bias_[0][i]
                data_ptrs[n][i] = 0
                t__8 = n
                n += 1
                n_drift = t__8
            if self.getPar().usesPersistentWeight():
                t__9 = n
                n += 1
                data_ptrs[t__9][i] = self.w_persistent_[0][i]
        if not self.getPar().legacy_params and self.hasWDrifter():
            self.wdrifter_.getNu__2(data_ptrs[n_drift])

    def setDeviceParameter__2(self, out_weights, data_ptrs):
        names = make_vector_string()
        self.getDPNames(names)
        if len(data_ptrs) < len(names):
            raise RuntimeError()
        dw_min = 0
        n_drift = 0
        for i in range(self.size_):
            n = 0
            t__1 = n
            n += 1
            self.w_max_bound_[0][i] = data_ptrs[t__1][i]
            t__2 = n
            n += 1
            self.w_min_bound_[0][i] = data_ptrs[t__2][i]
            t__3 = n
            n += 1
            self.w_scale_up_[0][i] = data_ptrs[t__3][i]
            t__4 = n
            n += 1
            self.w_scale_down_[0][i] = data_ptrs[t__4][i]
            t__5 = n
            n += 1
            self.w_decay_scale_[0][i] = data_ptrs[t__5][i]
            t__6 = n
            n += 1
            self.w_diffusion_rate_[0][i] = data_ptrs[t__6][i]
            if not self.getPar().legacy_params:
                t__7 = n
                n += 1
                self.w_reset_bias_[0][i] = data_ptrs[t__7][i]
                t__8 = n
                n += 1
                n_drift = t__8
            else:
                self.w_reset_bias_[0][i] = 0
            if self.getPar().usesPersistentWeight():
                t__9 = n
                n += 1
                self.w_persistent_[0][i] = data_ptrs[t__9][i]
            dw_min += (abs(self.w_scale_up_[0][i]) + abs(self.w_scale_down_[0][i])) / 2
        if not self.getPar().legacy_params and self.hasWDrifter():
            self.wdrifter_.setNu(data_ptrs[n_drift])
        dw_min /= self.size_
        if abs(dw_min - self.getPar().dw_min) / self.getPar().dw_min > 2 * self.getPar().dw_min_dtod:
            self.getPar().dw_min = dw_min
            self.setWeightGranularity(self.getPar().calcWeightGranularity())
        self.onSetDeviceParameter(out_weights)

    def printDP(self, x_count, d_count):
        x_count1 = x_count
        d_count1 = d_count
        if x_count < 0 or x_count > self.x_size_:
            x_count1 = self.x_size_
        if d_count < 0 or d_count > self.d_size_:
            d_count1 = self.d_size_
        persist_if = self.getPar().usesPersistentWeight()
        for i in range(d_count1):
            for j in range(x_count1):
                cout.precision(10)
                cout.precision(6)

    def getHiddenWeightsCount(self):
        return 1 if self.getPar().usesPersistentWeight() else 0

    def setHiddenWeights(self, data):
        m = self.getHiddenWeightsCount()
        if m == 0:
            return
        if len(data) != self.size_ * m or m != 1:
            raise RuntimeError()
        for i in range(self.size_):
            self.w_persistent_[0][i] = data[i]

    def getPersistentWeights(self):
        return self.w_persistent_

    def getMaxBound(self):
        return self.w_max_bound_

    def getMinBound(self):
        return self.w_min_bound_

    def getDecayScale(self):
        return self.w_decay_scale_

    def getDiffusionRate(self):
        return self.w_diffusion_rate_

    def getResetBias(self):
        return self.w_reset_bias_

    def getScaleUp(self):
        return self.w_scale_up_

    def getScaleDown(self):
        return self.w_scale_down_

    def decayWeights__2(self, weights, bias_no_decay):
        w = self.w_persistent_[0] if self.getPar().usesPersistentWeight() else weights[0]
        wd = self.w_decay_scale_[0]
        max_bound = self.w_max_bound_[0]
        min_bound = self.w_min_bound_[0]
        b = self.w_reset_bias_[0]
        if not bias_no_decay:
            for i in range(self.size_):
                w[i] = (w[i] - b[i]) * wd[i] + b[i]
                w[i] = min(w[i], max_bound[i])
                w[i] = max(w[i], min_bound[i])
        else:
            last_col = self.x_size_ - 1
            for i in range(self.size_):
                s = 1 if i % self.x_size_ == last_col else wd[i]
                w[i] = (w[i] - b[i]) * s + b[i]
                w[i] = min(w[i], max_bound[i])
                w[i] = max(w[i], min_bound[i])
        self.applyUpdateWriteNoise(weights)

    def decayWeights__4(self, weights, alpha, bias_no_decay):
        w = self.w_persistent_[0] if self.getPar().usesPersistentWeight() else weights[0]
        wd = self.w_decay_scale_[0]
        max_bound = self.w_max_bound_[0]
        min_bound = self.w_min_bound_[0]
        b = self.w_reset_bias_[0]
        if not bias_no_decay:
            for i in range(self.size_):
                s = 1 + alpha * (wd[i] - 1)
                w[i] = (w[i] - b[i]) * s + b[i]
                w[i] = min(w[i], max_bound[i])
                w[i] = max(w[i], min_bound[i])
        else:
            last_col = self.x_size_ - 1
            for i in range(self.size_):
                s = 1 if i % self.x_size_ == last_col else 1 + alpha * (wd[i] - 1)
                w[i] = (w[i] - b[i]) * s + b[i]
                w[i] = min(w[i], max_bound[i])
                w[i] = max(w[i], min_bound[i])
        self.applyUpdateWriteNoise(weights)

    def driftWeights__2(self, weights, time_since_last_call, rng):
        if self.hasWDrifter():
            w = self.w_persistent_ if self.getPar().usesPersistentWeight() else weights
            SimpleRPUDevice.driftWeights__2(self, w, time_since_last_call, rng)
            self.wdrifter_.saturate(w[0], self.w_min_bound_[0], self.w_max_bound_[0])
            self.applyUpdateWriteNoise(weights)

    def diffuseWeights__2(self, weights, rng):
        w = self.w_persistent_[0] if self.getPar().usesPersistentWeight() else weights[0]
        diffusion_rate = self.w_diffusion_rate_[0]
        max_bound = self.w_max_bound_[0]
        min_bound = self.w_min_bound_[0]
        for i in range(self.size_):
            w[i] += diffusion_rate[i] * rng.sampleGauss()
            w[i] = min(w[i], max_bound[i])
            w[i] = max(w[i], min_bound[i])
        self.applyUpdateWriteNoise(weights)

    def clipWeights__4(self, weights, clip):
        w = self.w_persistent_[0] if self.getPar().usesPersistentWeight() else weights[0]
        max_bound = self.w_max_bound_[0]
        min_bound = self.w_min_bound_[0]
        if clip < 0:
            for i in range(self.size_):
                w[i] = min(w[i], max_bound[i])
                w[i] = max(w[i], min_bound[i])
        else:
            for i in range(self.size_):
                w[i] = min(w[i], min(max_bound[i], clip))
                w[i] = max(w[i], max(min_bound[i], -clip))
        self.applyUpdateWriteNoise(weights)

    def onSetWeights(self, weights):
        w = weights[0]
        max_bound = self.w_max_bound_[0]
        min_bound = self.w_min_bound_[0]
        for i in range(self.size_):
            w[i] = min(w[i], max_bound[i])
            w[i] = max(w[i], min_bound[i])
        if self.getPar().usesPersistentWeight():
            for i in range(self.size_):
                self.w_persistent_[0][i] = w[i]
                weights[0][i] = w[i]
            if self.getPar().apply_write_noise_on_set:
                self.applyUpdateWriteNoise(weights)
            return True
        else:
            return False

    def onSetDeviceParameter(self, weights):
        if not self.getPar().usesPersistentWeight():
            self.onSetWeights(weights)
            return
        w = self.w_persistent_[0]
        max_bound = self.w_max_bound_[0]
        min_bound = self.w_min_bound_[0]
        for i in range(self.size_):
            w[i] = min(w[i], max_bound[i])
            w[i] = max(w[i], min_bound[i])

    def resetCols__2(self, weights, start_col, n_col_in, reset_prob, rng):
        w = self.w_persistent_[0] if self.getPar().usesPersistentWeight() else weights[0]
        n_col = n_col_in if n_col_in >= 0 else self.x_size_
        reset_std = self.getPar().reset_std
        for j in range(self.x_size_):
            if start_col + n_col <= self.x_size_ and j >= start_col and (j < start_col + n_col) or (start_col + n_col > self.x_size_ and (j >= start_col or j < n_col - (self.x_size_ - start_col))):
                for i in range(self.d_size_):
                    if reset_prob == 1 or rng.sampleUniform__1() < reset_prob:
                        k = i * self.x_size_ + j
                        w[k] = self.w_reset_bias_[i][j] + (reset_std * rng.sampleGauss() if reset_std > 0 else 0)
                        w[k] = min(w[k], self.w_max_bound_[i][j])
                        w[k] = max(w[k], self.w_min_bound_[i][j])
        self.applyUpdateWriteNoise(weights)

    def resetAtIndices(self, weights, x_major_indices, rng):
        if self.getPar().usesPersistentWeight():
            raise RuntimeError()
        reset_std = self.getPar().reset_std
        for index in x_major_indices:
            i = index // self.x_size_
            j = index % self.x_size_
            weights[i][j] = self.w_reset_bias_[i][j] + (reset_std * rng.sampleGauss() if reset_std > 0 else 0)
            weights[i][j] = min(weights[i][j], self.w_max_bound_[i][j])
            weights[i][j] = max(weights[i][j], self.w_min_bound_[i][j])

    def copyInvertDeviceParameter(self, rpu_device):
        if not self.containers_allocated_:
            raise RuntimeError()
        if rpu_device.getXSize() != self.x_size_ or rpu_device.getDSize() != self.d_size_:
            raise RuntimeError()
        rpu = rpu_device
        if rpu is None:
            raise RuntimeError()
        for j in range(self.x_size_):
            for i in range(self.d_size_):
                self.w_scale_up_[i][j] = rpu.w_scale_down_[i][j]
                self.w_scale_down_[i][j] = rpu.w_scale_up_[i][j]
                self.w_max_bound_[i][j] = -rpu.w_min_bound_[i][j]
                self.w_min_bound_[i][j] = -rpu.w_max_bound_[i][j]

    def populate__16(self, p, rng):
        PulsedRPUDeviceBase.populate__17(self, p, rng)
        par = self.getPar()
        up_down = par.up_down
        up_down_std = par.up_down_dtod
        up_bias = min(0, up_down)
        down_bias = -up_down if up_down > 0 else 0
        gain_std = par.dw_min_dtod
        if par.w_min > 0 or par.w_max < 0:
            raise RuntimeError()
        for j in range(self.x_size_):
            for i in range(self.d_size_):
                self.w_max_bound_[i][j] = par.w_max * (1 + par.w_max_dtod * rng.sampleGauss())
                self.w_min_bound_[i][j] = par.w_min * (1 + par.w_min_dtod * rng.sampleGauss())
                gain = None
                if par.dw_min_dtod_log_normal:
                    gain = m_exp(gain_std * rng.sampleGauss())
                else:
                    gain = 1 + gain_std * rng.sampleGauss()
                r = up_down_std * rng.sampleGauss()
                self.w_scale_up_[i][j] = (up_bias + gain + r) * par.dw_min
                self.w_scale_down_[i][j] = (down_bias + gain - r) * par.dw_min
                if par.enforce_consistency:
                    self.w_scale_up_[i][j] = abs(self.w_scale_up_[i][j])
                    self.w_scale_down_[i][j] = abs(self.w_scale_down_[i][j])
                    if self.w_min_bound_[i][j] > self.w_max_bound_[i][j]:
                        self.w_min_bound_[i][j], self.w_max_bound_[i][j] = (self.w_max_bound_[i][j], self.w_min_bound_[i][j])
                    self.w_max_bound_[i][j] = abs(self.w_max_bound_[i][j])
                    self.w_min_bound_[i][j] = -abs(self.w_min_bound_[i][j])
                elif self.w_min_bound_[i][j] > self.w_max_bound_[i][j]:
                    m = self.w_max_bound_[i][j] + (self.w_min_bound_[i][j] - self.w_max_bound_[i][j]) / 2
                    self.w_max_bound_[i][j] = m
                    self.w_min_bound_[i][j] = m
                if par.adjust_bounds_with_up_down:
                    if self.w_min_bound_[i][j] > self.w_max_bound_[i][j]:
                        self.w_min_bound_[i][j], self.w_max_bound_[i][j] = (self.w_max_bound_[i][j], self.w_min_bound_[i][j])
                    up_down_alpha = self.w_scale_up_[i][j] / (self.w_scale_up_[i][j] + self.w_scale_down_[i][j])
                    mm = self.w_max_bound_[i][j] - self.w_min_bound_[i][j]
                    new_min_bound = 0
                    up_down_deviation = par.adjust_bounds_with_up_down_dev
                    if up_down_deviation > 0:
                        new_min_bound = -((m_tanh((up_down_alpha - 0.5) / up_down_deviation) + 1) / 2) * mm
                    elif up_down_alpha < 0.5:
                        new_min_bound = 0
                    elif up_down_alpha == 0.5:
                        new_min_bound = -mm / 2
                    else:
                        new_min_bound = -mm
                    self.w_min_bound_[i][j] = new_min_bound
                    self.w_max_bound_[i][j] = new_min_bound + mm
                if par.corrupt_devices_prob > rng.sampleUniform__1():
                    mn = max(min(self.w_max_bound_[i][j], self.w_min_bound_[i][j]), -abs(par.corrupt_devices_range))
                    mx = min(max(self.w_max_bound_[i][j], self.w_min_bound_[i][j]), abs(par.corrupt_devices_range))
                    value = mn + (mx - mn) * rng.sampleUniform__1()
                    self.w_max_bound_[i][j] = value
                    self.w_min_bound_[i][j] = value
                    self.w_scale_up_[i][j] = 0
                    self.w_scale_down_[i][j] = 0
                if par.perfect_bias and j == self.x_size_ - 1:
                    self.w_scale_up_[i][j] = par.dw_min
                    self.w_scale_down_[i][j] = par.dw_min
                    self.w_min_bound_[i][j] = 100 * par.w_min
                    self.w_max_bound_[i][j] = 100 * par.w_max
                t = abs(par.diffusion * (1 + par.diffusion_dtod * rng.sampleGauss()))
                self.w_diffusion_rate_[i][j] = t
                t = par.reset + par.reset_dtod * rng.sampleGauss()
                self.w_reset_bias_[i][j] = t
                if par.lifetime > 0:
                    t = par.lifetime * (1 + par.lifetime_dtod * rng.sampleGauss())
                    self.w_decay_scale_[i][j] = 1 - 1 / t if t > 1 else 0
                else:
                    self.w_decay_scale_[i][j] = 1

    def applyUpdateWriteNoise(self, weights):
        par = self.getPar()
        if not par.implementsWriteNoise() or not par.usesPersistentWeight():
            return
        uw_std = self.getPar().getScaledWriteNoise()
        for i in range(self.size_):
            if uw_std > 0:
                weights[0][i] = self.w_persistent_[0][i] + uw_std * self.write_noise_rng_.sampleGauss()
            else:
                weights[0][i] = self.w_persistent_[0][i]

    def freeContainers(self):
        if self.containers_allocated_:
            Array_2D_Free__1(self.w_max_bound_)
            Array_2D_Free__1(self.w_min_bound_)
            Array_2D_Free__1(self.w_scale_up_)
            Array_2D_Free__1(self.w_scale_down_)
            Array_2D_Free__1(self.w_decay_scale_)
            Array_2D_Free__1(self.w_diffusion_rate_)
            Array_2D_Free__1(self.w_reset_bias_)
            Array_2D_Free__1(self.w_persistent_)
            self.containers_allocated_ = False

    def allocateContainers__1(self):
        self.freeContainers()
        d_sz = self.d_size_
        x_sz = self.x_size_
        self.w_max_bound_ = Array_2D_Get(d_sz, x_sz)
        self.w_min_bound_ = Array_2D_Get(d_sz, x_sz)
        self.w_scale_up_ = Array_2D_Get(d_sz, x_sz)
        self.w_scale_down_ = Array_2D_Get(d_sz, x_sz)
        self.w_decay_scale_ = Array_2D_Get(d_sz, x_sz)
        self.w_diffusion_rate_ = Array_2D_Get(d_sz, x_sz)
        self.w_reset_bias_ = Array_2D_Get(d_sz, x_sz)
        self.w_persistent_ = Array_2D_Get(d_sz, x_sz)
        for j in range(x_sz):
            for i in range(d_sz):
                self.w_max_bound_[i][j] = numeric_limits.max()
                self.w_min_bound_[i][j] = numeric_limits.min()
                self.w_scale_up_[i][j] = 0
                self.w_scale_down_[i][j] = 0
                self.w_decay_scale_[i][j] = 1
                self.w_diffusion_rate_[i][j] = 0
                self.w_reset_bias_[i][j] = 0
                self.w_persistent_[i][j] = 0
        self.containers_allocated_ = True

    def initialize__1(self):
        self.allocateContainers__1()



@of("rpucuda.rpu_pulsed_device.PulsedRPUDeviceBase")
class PulsedRPUDeviceBase:
    weight_granularity_ = 0
    num_states_ = 0
    def ctor__1(self):
        pass

    def copyInvertDeviceParameter(self, rpu_device):
        raise RuntimeError()

    def isPulsedDevice(self):
        return True

    def clone(self):
        raise RuntimeError()

    def resetCols__2(self, weights, start_col, n_cols, reset_prob, rng):
        raise RuntimeError()

    def doSparseUpdate(self, weights, i, x_signed_indices, x_count, d_sign, rng):
        raise RuntimeError()

    def doDenseUpdate(self, weights, coincidences, rng):
        raise RuntimeError()

    def initUpdateCycle(self, weights, up, current_lr, m_batch_info, x_input, x_inc, d_input, d_inc):
        pass

    def finishUpdateCycle(self, weights, up, current_lr, m_batch_info):
        pass

    def getWeightGranularity(self):
        return self.weight_granularity_

    def getPulseCountLearningRate(self, learning_rate, current_m_batch, up):
        return learning_rate

    def initWithUpdateInput(self, x_input, x_inc, d_input, d_inc):
        pass

    def dumpExtra(self, extra, prefix):
        SimpleRPUDevice.dumpExtra(self, extra, prefix)
        state = make_state_t()
        insert__3(state, 'num_states', self.num_states_)
        insert__3(state, 'weight_granularity', self.weight_granularity_)
        insertWithPrefix(extra, state, prefix)

    def loadExtra(self, extra, prefix, strict):
        SimpleRPUDevice.loadExtra(self, extra, prefix, strict)
        state = selectWithPrefix(extra, prefix)
        self.num_states_ = load__3(state, 'num_states', self.num_states_, strict)
        self.weight_granularity_ = load__3(state, 'weight_granularity', self.weight_granularity_, strict)

    def getNumStates(self):
        return self.num_states_

    def ctor__2(self, x_sz, d_sz):
        SimpleRPUDevice.ctor__2(self, x_sz, d_sz)

    def setWeightGranularity(self, weight_granularity):
        self.weight_granularity_ = weight_granularity

    def setNumStates(self, num_states):
        self.num_states_ = num_states

    def populate__17(self, par, rng):
        SimpleRPUDevice.populate__18(self, par, rng)
        self.setWeightGranularity(par.calcWeightGranularity())
        self.setNumStates(par.calcNumStates())



@of("rpucuda.rpu_pulsed_device.PulsedRPUDeviceMetaParameter")
class PulsedRPUDeviceMetaParameter:
    legacy_params = None
    dw_min = None
    dw_min_dtod = None
    dw_min_std = None
    dw_min_dtod_log_normal = None
    w_min = None
    w_min_dtod = None
    w_max = None
    w_max_dtod = None
    up_down = None
    up_down_dtod = None
    lifetime_dtod = None
    diffusion_dtod = None
    enforce_consistency = None
    perfect_bias = None
    corrupt_devices_prob = None
    corrupt_devices_range = None
    reset = None
    reset_dtod = None
    adjust_bounds_with_up_down = None
    adjust_bounds_with_up_down_dev = None
    write_noise_std = None
    apply_write_noise_on_set = None
    count_pulses = None
    def usesPersistentWeight(self):
        return self.write_noise_std > 0

    def getScaledWriteNoise(self):
        return self.write_noise_std * self.dw_min

    def getName(self):
        return 'PulsedRPUDeviceParameter'

    def createDevice(self, x_size, d_size, rng):
        raise RuntimeError()

    def clone(self):
        raise RuntimeError()

    def implements(self):
        return DeviceUpdateType.Undefined

    def implementsWriteNoise(self):
        return False

    def initialize__1(self):
        AbstractRPUDeviceMetaParameter.initialize__1(self)
        if not self.implementsWriteNoise() and self.usesPersistentWeight():
            raise RuntimeError()
        self.reset_dtod = max(self.reset_dtod, 0)
        self.reset_std = max(self.reset_std, 0)



@of("rpucuda.rpu_pulsed_device.PulsedRPUDeviceMetaParameterBase")
class PulsedRPUDeviceMetaParameterBase:
    def ctor(self):
        self.drift.unsetSimpleDrift()

    def getName(self):
        return 'PulsedRPUDeviceParameterBase'

    def createDevice(self, x_size, d_size, rng):
        raise RuntimeError()

    def clone(self):
        raise RuntimeError()

    def implements(self):
        return DeviceUpdateType.Undefined

    def calcWeightGranularity(self):
        raise RuntimeError()

    def calcNumStates(self):
        raise RuntimeError()


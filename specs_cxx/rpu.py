@of("rpucuda.rpu.combine_wb")
def combine_wb(wb, w, b, xsz, dsz):
    k = 0
    for i in range(dsz):
        for j in range(xsz - 1):
            t__1 = k
            k += 1
            wb[j + xsz * i] = w[t__1]
    for i in range(dsz):
        wb[xsz * (i + 1) - 1] = b[i]


@of("rpucuda.rpu.swap__26")
def swap__26(a, b):
    a.x_size_, b.x_size_ = (b.x_size_, a.x_size_)
    a.d_size_, b.d_size_ = (b.d_size_, a.d_size_)
    a.learning_rate_, b.learning_rate_ = (b.learning_rate_, a.learning_rate_)


@of("rpucuda.rpu.swap__28")
def swap__28(a, b):
    swap__26(a, b)
    a.rng_, b.rng_ = (b.rng_, a.rng_)
    a.rw_rng_, b.rw_rng_ = (b.rw_rng_, a.rw_rng_)
    a.par_, b.par_ = (b.par_, a.par_)
    a.weights_, b.weights_ = (b.weights_, a.weights_)
    a.shared_weights_if_, b.shared_weights_if_ = (b.shared_weights_if_, a.shared_weights_if_)
    a.weights_buffer_, b.weights_buffer_ = (b.weights_buffer_, a.weights_buffer_)
    a.use_delayed_update_, b.use_delayed_update_ = (b.use_delayed_update_, a.use_delayed_update_)
    a.temp_x_vector_bias_, b.temp_x_vector_bias_ = (b.temp_x_vector_bias_, a.temp_x_vector_bias_)
    a.temp_x_matrix_bias_, b.temp_x_matrix_bias_ = (b.temp_x_matrix_bias_, a.temp_x_matrix_bias_)
    a.temp_tensor_, b.temp_tensor_ = (b.temp_tensor_, a.temp_tensor_)
    a.flicker_states_, b.flicker_states_ = (b.flicker_states_, a.flicker_states_)
    a.flicker_probs_, b.flicker_probs_ = (b.flicker_probs_, a.flicker_probs_)
    a.matrix_indices_, b.matrix_indices_ = (b.matrix_indices_, a.matrix_indices_)
    a.matrix_indices_set_, b.matrix_indices_set_ = (b.matrix_indices_set_, a.matrix_indices_set_)
    a.wdrifter_, b.wdrifter_ = (b.wdrifter_, a.wdrifter_)
    a.wremapper_, b.wremapper_ = (b.wremapper_, a.wremapper_)
    a.wclipper_, b.wclipper_ = (b.wclipper_, a.wclipper_)
    a.fb_weights_, b.fb_weights_ = (b.fb_weights_, a.fb_weights_)
    a.delta_weights_extern_, b.delta_weights_extern_ = (b.delta_weights_extern_, a.delta_weights_extern_)
    a.fb_weight_modifier_, b.fb_weight_modifier_ = (b.fb_weight_modifier_, a.fb_weight_modifier_)
    a.last_update_m_batch_, b.last_update_m_batch_ = (b.last_update_m_batch_, a.last_update_m_batch_)
    a.bwd_alpha_, b.bwd_alpha_ = (b.bwd_alpha_, a.bwd_alpha_)
    a.fwd_alpha_, b.fwd_alpha_ = (b.fwd_alpha_, a.fwd_alpha_)


@of("rpucuda.rpu.DriftParameter")
class DriftParameter:
    nu = 0
    nu_dtod = 0
    nu_std = 0
    wg_ratio = 1
    g_offset = 0
    w_offset = 0
    nu_k = 0
    logG0 = 0
    t0 = 1
    reset_tol = 1e-07
    w_read_std = 0
    _is_simple_drift = False
    def isSimpleDrift(self):
        return self._is_simple_drift

    def setSimpleDrift(self):
        self.nu_dtod = 0
        self._is_simple_drift = True

    def unsetSimpleDrift(self):
        self._is_simple_drift = False

    def usesRandom(self):
        return self.w_read_std > 0 or self.nu_std > 0



@of("rpucuda.rpu.FlickerParameter")
class FlickerParameter:
    n = 64
    r = m_sqrt(m_sqrt(2))
    q = 0.5
    h = 0
    wreset = False
    wreset_tol = 1e-05


@of("rpucuda.rpu.RPUAbstract")
class RPUAbstract:
    x_size_ = None
    d_size_ = None
    learning_rate_ = 0
    def getDataTypeName(self):
        return 'float'

    def ctor__1(self):
        self.x_size_ = 0
        self.d_size_ = 0
        fesetround(0)

    def ctor__2(self, x_size, d_size):
        self.x_size_ = x_size
        self.d_size_ = d_size
        fesetround(0)

    def disp__1(self):
        self.printToStream__1(ss)

    def setLearningRate(self, lrate):
        self.learning_rate_ = lrate

    def forwardMatrix(self, X_input, D_output, m_batch, x_trans, d_trans, is_test):
        x_offset = 1 if x_trans else self.x_size_
        d_offset = 1 if d_trans else self.d_size_
        x_inc = m_batch if x_trans else 1
        d_inc = m_batch if d_trans else 1
        x_input = X_input
        d_output = D_output
        for i in range(m_batch):
            self.forwardVector__1(ptr_add(x_input, i * x_offset), ptr_add(d_output, i * d_offset), x_inc, d_inc, is_test)

    def backwardMatrix(self, D_input, X_output, m_batch, d_trans, x_trans):
        x_offset = 1 if x_trans else self.x_size_
        d_offset = 1 if d_trans else self.d_size_
        x_inc = m_batch if x_trans else 1
        d_inc = m_batch if d_trans else 1
        d_input = D_input
        x_output = X_output
        for i in range(m_batch):
            self.backwardVector__1(ptr_add(d_input, i * d_offset), ptr_add(x_output, i * x_offset), d_inc, x_inc)

    def updateMatrix(self, X_input, D_input, m_batch, x_trans, d_trans):
        x_offset = 1 if x_trans else self.x_size_
        d_offset = 1 if d_trans else self.d_size_
        x_inc = m_batch if x_trans else 1
        d_inc = m_batch if d_trans else 1
        x_input = X_input
        d_input = D_input
        for i in range(m_batch):
            self.updateVector__1(ptr_add(x_input, i * x_offset), ptr_add(d_input, i * d_offset), x_inc, d_inc)

    def forwardMatrixBias(self, X_input_without_bias, D_output, m_batch, x_trans, d_trans, is_test):
        x_offset = 1 if x_trans else self.x_size_ - 1
        d_offset = 1 if d_trans else self.d_size_
        x_inc = m_batch if x_trans else 1
        d_inc = m_batch if d_trans else 1
        x_input_without_bias = X_input_without_bias
        d_output = D_output
        for i in range(m_batch):
            self.forwardVectorBias(ptr_add(x_input_without_bias, i * x_offset), ptr_add(d_output, i * d_offset), x_inc, d_inc, is_test)

    def backwardMatrixBias(self, D_input, X_output_without_bias, m_batch, d_trans, x_trans):
        x_offset = 1 if x_trans else self.x_size_ - 1
        d_offset = 1 if d_trans else self.d_size_
        x_inc = m_batch if x_trans else 1
        d_inc = m_batch if d_trans else 1
        d_input = D_input
        x_output_without_bias = X_output_without_bias
        for i in range(m_batch):
            self.backwardVectorBias(ptr_add(d_input, i * d_offset), ptr_add(x_output_without_bias, i * x_offset), d_inc, x_inc)

    def updateMatrixBias(self, X_input_without_bias, D_input, m_batch, x_trans, d_trans):
        x_offset = 1 if x_trans else self.x_size_ - 1
        d_offset = 1 if d_trans else self.d_size_
        x_inc = m_batch if x_trans else 1
        d_inc = m_batch if d_trans else 1
        x_input_without_bias = X_input_without_bias
        d_input = D_input
        for i in range(m_batch):
            self.updateVectorBias(ptr_add(x_input_without_bias, i * x_offset), ptr_add(d_input, i * d_offset), x_inc, d_inc)

    def getXSize(self):
        return self.x_size_

    def getDSize(self):
        return self.d_size_

    def getLearningRate(self):
        return self.learning_rate_

    def finishUpdateCalculations(self):
        pass

    def finishAllCalculations(self):
        pass

    def makeUpdateAsync(self):
        pass



@of("rpucuda.rpu.RPUSimple")
class RPUSimple:
    rng_ = None
    rw_rng_ = None
    weights_ = None
    weights_buffer_ = None
    fb_weights_ = None
    last_update_m_batch_ = 1
    use_delayed_update_ = False
    wdrifter_ = None
    wremapper_ = None
    wclipper_ = None
    fb_weight_modifier_ = None
    matrix_indices_ = None
    matrix_indices_set_ = False
    fwd_alpha_ = 1
    bwd_alpha_ = 1
    shared_weights_if_ = False
    def ctor__1(self):
        pass

    def ctor__2(self, x_sz, d_sz):
        RPUAbstract.ctor__2(self, x_sz, d_sz)
        self.initialize__3(x_sz, d_sz)

    def populateParameter__1(self, p):
        self.par_ = p[0]

    def getPar(self):
        return self.par_

    def dispParameter(self):
        self.printParametersToStream(ss)

    def printParametersToStream(self, ss):
        self.getPar().printToStream__1(ss)

    def setLearningRate(self, lr):
        if lr != self.getLearningRate():
            RPUAbstract.setLearningRate(self, lr)

    def setRandomSeed(self, seed):
        self.rng_.setSeed(seed)
        self.rw_rng_.setSeed(seed)

    def setWeightsUniformRandom(self, min_value, max_value):
        w = self.getWeightsPtr()
        for j in range(self.x_size_):
            for i in range(self.d_size_):
                w[i][j] = self.rng_.sampleUniform__3(min_value, max_value)

    def setWeightsWithAlpha(self, weightsptr, assumed_wmax):
        if assumed_wmax <= 0:
            self.setWeights(weightsptr)
        else:
            sz = self.x_size_ * self.d_size_
            w = make_float(sz)
            for t__1 in range(sz):
                w[t__1] = weightsptr[t__1]
            imax = iamax__2(sz, w, 1)
            alpha = abs(w[imax] / assumed_wmax)
            scal__2(sz, 1 / alpha, w, 1)
            self.setAlphaScale(alpha)
            self.setWeights(w)

    def setWeights(self, weightsptr):
        w = self.getWeightsPtr()[0]
        if weightsptr != w:
            size = self.d_size_ * self.x_size_
            for t__1 in range(size):
                w[t__1] = weightsptr[t__1]

    def setWeightsAndBias(self, weightsptr, biasptr, real_if, n_loops):
        self.setWeightsAndBiasWithAlpha(weightsptr, biasptr, -1, real_if, n_loops)

    def setWeightsAndBiasWithAlpha(self, weightsptr, biasptr, assumed_wmax, real_if, n_loops):
        sz = self.x_size_ * self.d_size_
        w = make_float(sz)
        combine_wb(w, weightsptr, biasptr, self.x_size_, self.d_size_)
        if assumed_wmax > 0:
            imax = iamax__2(sz, w, 1)
            alpha = abs(w[imax] / assumed_wmax)
            scal__2(sz, 1 / alpha, w, 1)
            self.setAlphaScale(alpha)
        if real_if:
            self.setWeightsReal(w, n_loops)
        else:
            self.setWeights(w)

    def setSharedWeights(self, weightsptr):
        if not self.shared_weights_if_:
            self.getWeights__2(weightsptr)
        self.weights_[0] = weightsptr
        self.shared_weights_if_ = True
        if self.d_size_ > 0 and self.weights_[self.d_size_ - 1] != ptr_add(self.weights_[0], self.x_size_ * self.d_size_):
            for i in range(self.d_size_):
                self.weights_[i] = ptr_add(self.weights_[0], self.x_size_ * i)

    def getSharedWeightsIf(self):
        return self.shared_weights_if_

    def getWeightsPtr(self):
        return self.weights_

    def getWeights__1(self):
        return self.getWeightsPtr()

    def getWeights__2(self, weightsptr):
        w = self.getWeightsPtr()[0]
        for t__1 in range(self.x_size_ * self.d_size_):
            weightsptr[t__1] = w[t__1]

    def getWeightsReal(self, weightsptr):
        self.getWeights__2(weightsptr)

    def setWeightsReal(self, weightsptr, n_loops):
        self.setWeights(weightsptr)

    def getAndResetWeightUpdate(self, prev_weight_and_dw_out, scale):
        w = self.getWeightsPtr()[0]
        size = self.d_size_ * self.x_size_
        for i in range(size):
            w_old = prev_weight_and_dw_out[i]
            prev_weight_and_dw_out[i] = scale * (w[i] - w_old)
            w[i] = w_old

    def applyWeightUpdate(self, dw_and_current_weight_out):
        w = self.getWeightsPtr()[0]
        size = self.d_size_ * self.x_size_
        for i in range(size):
            dw = dw_and_current_weight_out[i]
            w[i] += dw
            dw_and_current_weight_out[i] = w[i]

    def printWeights(self, x_count, d_count):
        if x_count < 0 or x_count > self.x_size_:
            x_count = self.x_size_
        if d_count < 0 or d_count > self.d_size_:
            d_count = self.d_size_
        for i in range(d_count):
            for j in range(x_count):
                pass

    def getDeviceParameterNames(self, names):
        names.clear()

    def getDeviceParameter__1(self, data_ptrs):
        pass

    def setDeviceParameter__1(self, data_ptrs):
        pass

    def dumpExtra(self, extra, prefix):
        tmp = make_V(self.x_size_ * self.d_size_)
        state = make_state_t()
        if self.fb_weights_ is not None:
            copy__2(len(tmp), self.fb_weights_[0], 1, tmp, 1)
            insert__8(state, 'fb_weights', tmp)
            self.fb_weight_modifier_.dumpExtra(state, 'fb_weight_modifier')
        copy__2(len(tmp), self.weights_buffer_[0], 1, tmp, 1)
        if self.use_delayed_update_:
            insert__8(state, 'weights_buffer', tmp)
        if self.wdrifter_ is not None:
            self.wdrifter_.dumpExtra(state, 'wdrifter')
        if self.wclipper_ is not None:
            self.wclipper_.dumpExtra(state, 'wclipper')
        if self.wremapper_ is not None:
            self.wremapper_.dumpExtra(state, 'wremapper')
        insert__3(state, 'learning_rate', self.learning_rate_)
        insert__8(state, 'flicker_probs', self.flicker_probs_)
        insert__11(state, 'flicker_states', self.flicker_states_)
        insert__1(state, 'use_delayed_update', self.use_delayed_update_)
        insert__4(state, 'last_update_m_batch', self.last_update_m_batch_)
        insert__3(state, 'fwd_alpha', self.fwd_alpha_)
        insert__3(state, 'bwd_alpha', self.bwd_alpha_)
        insertWithPrefix(extra, state, prefix)

    def loadExtra(self, extra, prefix, strict):
        state = selectWithPrefix(extra, prefix)
        if state.count(make_key_type('fb_weights')) != 0:
            tmp = make_V()
            load__8(state, 'fb_weights', tmp, strict)
            if len(tmp) != 0:
                if self.fb_weights_ is None:
                    self.fb_weights_ = Array_2D_Get(self.d_size_, self.x_size_)
                    self.fb_weight_modifier_ = make_unique_unique_ptr_WeightModifier(self.x_size_, self.d_size_)
                copy__2(len(tmp), tmp, 1, self.fb_weights_[0], 1)
                self.fb_weight_modifier_.loadExtra(state, 'fb_weight_modifier', strict)
        if not len(selectWithPrefix(state, 'wdrifter')) == 0:
            if not self.wdrifter_ is not None:
                self.wdrifter_ = make_unique_unique_ptr_WeightDrifter(self.x_size_ * self.d_size_, self.getPar().drift)
            self.wdrifter_.loadExtra(state, 'wdrifter', strict)
        if not len(selectWithPrefix(state, 'wclipper')) == 0:
            if not self.wclipper_ is not None:
                self.wclipper_ = make_unique_unique_ptr_WeightClipper(self.x_size_, self.d_size_)
            self.wclipper_.loadExtra(state, 'wclipper', strict)
        if not len(selectWithPrefix(state, 'wremapper')) == 0:
            if not self.wremapper_ is not None:
                self.wremapper_ = make_unique_unique_ptr_WeightRemapper(self.x_size_, self.d_size_)
            self.wremapper_.loadExtra(state, 'wremapper', strict)
        load__8(state, 'flicker_probs', self.flicker_probs_, strict)
        self.learning_rate_ = load__3(state, 'learning_rate', self.learning_rate_, strict)
        self.use_delayed_update_ = load__1(state, 'use_delayed_update', self.use_delayed_update_, strict)
        self.last_update_m_batch_ = load__4(state, 'last_update_m_batch', self.last_update_m_batch_, strict)
        self.fwd_alpha_ = load__3(state, 'fwd_alpha', self.fwd_alpha_, strict)
        self.bwd_alpha_ = load__3(state, 'bwd_alpha', self.bwd_alpha_, strict)
        load__11(state, 'flicker_states', self.flicker_states_, strict)
        if self.use_delayed_update_:
            tmp = make_V()
            load__8(state, 'weights_buffer', tmp, strict)
            copy__2(len(tmp), tmp, 1, self.weights_buffer_[0], 1)

    def getHiddenUpdateIdx(self):
        return 0

    def setHiddenUpdateIdx(self, idx):
        pass

    def decayWeights__1(self, bias_no_decay):
        RPUSimple.decayWeights__3(self, 1, bias_no_decay)

    def decayWeights__3(self, alpha, bias_no_decay):
        lifetime = self.getPar().lifetime
        decay_rate = 1 / lifetime if lifetime > 1 else 0
        decay_scale = 1 - alpha * decay_rate
        if decay_scale > 0 and decay_scale < 1:
            if not bias_no_decay:
                scal__2(self.x_size_ * self.d_size_, decay_scale, self.getWeightsPtr()[0], 1)
            else:
                size = self.d_size_ * self.x_size_
                w = self.getWeightsPtr()[0]
                last_col = self.x_size_ - 1
                for i in range(size):
                    w[i] *= 1 if i % self.x_size_ == last_col else decay_scale

    def clipWeights__2(self, clip):
        if clip >= 0:
            size = self.d_size_ * self.x_size_
            w = self.getWeightsPtr()[0]
            for i in range(size):
                w[i] = min(max(w[i], -clip), clip)

    def clipWeights__1(self, wclpar):
        if self.wclipper_ is None:
            self.wclipper_ = make_unique_unique_ptr_WeightClipper(self.x_size_, self.d_size_)
        self.wclipper_.apply__1(self.getWeightsPtr()[0], wclpar)

    def resetCols__1(self, start_col, n_cols, reset_prob):
        raise RuntimeError()

    def diffuseWeights__1(self):
        diffusion = self.getPar().diffusion
        if diffusion > 0:
            size = self.d_size_ * self.x_size_
            w = self.getWeightsPtr()[0]
            for i in range(size):
                w[i] += diffusion * self.rng_.sampleGauss()

    def driftWeights__1(self, time_since_last_call):
        if not self.wdrifter_ is not None:
            self.wdrifter_ = make_unique_unique_ptr_WeightDrifter(self.x_size_ * self.d_size_, self.getPar().drift)
        self.wdrifter_.apply__3(self.getWeightsPtr()[0], time_since_last_call, self.rng_)

    def diffuseWeightsPink(self):
        if self.isDelayedUpdate():
            raise RuntimeError()
        diffusion = self.getPar().diffusion
        if diffusion <= 0:
            return
        flicker = self.getPar().flicker
        size = self.d_size_ * self.x_size_
        if len(self.flicker_states_) == 0:
            self.initFlickerStates()
        amp = m_sqrt(m_log(flicker.r) * diffusion / (flicker.q * (1 - flicker.q)))
        w = self.getWeightsPtr()[0]
        wb = self.getWeightsBuffer()[0]
        sc = (1 - flicker.q) / flicker.q
        H = -flicker.h / flicker.q
        zero = 0
        one = 1
        for j in range(size):
            fls = self.flicker_states_[j]
            last_noise_value = __builtin_popcountll(fls)
            if flicker.wreset and abs(w[j] - wb[j]) > flicker.wreset_tol:
                if flicker.h > 0:
                    for i in range(flicker.n):
                        cbit = one << i
                        fls ^= (cbit if self.rng_.sampleUniform__1() >= m_exp(H * self.flicker_probs_[i]) else zero) if fls & cbit > 0 else zero
                else:
                    fls = 0
                    for i in range(flicker.n):
                        fls ^= one << i if self.rng_.sampleUniform__1() < flicker.q else zero
            else:
                for i in range(flicker.n):
                    prob = self.flicker_probs_[i]
                    cbit = one << i
                    stoch_value = self.rng_.sampleUniform__1()
                    fls ^= (cbit if stoch_value < prob * sc else zero) if fls & cbit > 0 else cbit if stoch_value < prob else zero
            noise_value = __builtin_popcountll(fls)
            w[j] += amp * (noise_value - last_noise_value)
            self.flicker_states_[j] = fls
            if flicker.wreset:
                wb[j] = w[j]

    def initFlickerStates(self):
        if self.isDelayedUpdate():
            raise RuntimeError()
        flicker = self.getPar().flicker
        if flicker.n > 64:
            raise RuntimeError()
        size = self.d_size_ * self.x_size_
        self.flicker_states_.resize(size)
        for j in range(size):
            for i in range(flicker.n):
                self.flicker_states_[j] ^= 1 << i if self.rng_.sampleUniform__1() < flicker.q else 0
        self.flicker_probs_.resize(flicker.n)
        self.flicker_probs_[0] = flicker.q
        for i in range(1, flicker.n):
            self.flicker_probs_[i] = self.flicker_probs_[i - 1] / flicker.r
        if flicker.wreset:
            self.copyWeightsToBuffer()
        return self.flicker_states_

    def remapWeights(self, wrmpar, scales, biases):
        if self.wremapper_ is None:
            self.wremapper_ = make_unique_unique_ptr_WeightRemapper(self.x_size_, self.d_size_)
        self.wremapper_.apply__4(self.getWeightsPtr()[0], self.getAlphaLearningRate(), wrmpar, scales, biases)

    def swaWeights(self, wrmpar, swa_weights, iter_v, scales, biases):
        if self.wremapper_ is None:
            self.wremapper_ = make_unique_unique_ptr_WeightRemapper(self.x_size_, self.d_size_)
        return self.wremapper_.applySWA(swa_weights, self.getWeightsPtr()[0], iter_v, wrmpar, self.getAlphaLearningRate(), scales, biases)

    def modifyFBWeights(self, wmpar):
        if self.fb_weights_ is None:
            self.fb_weights_ = Array_2D_Get(self.d_size_, self.x_size_)
            self.fb_weight_modifier_ = make_unique_unique_ptr_WeightModifier(self.x_size_, self.d_size_)
        self.fb_weight_modifier_.apply__2(self.fb_weights_[0], self.getWeightsPtr()[0], wmpar)

    def isDelayedUpdate(self):
        return self.getPar().use_delayed_update

    def applyDelayedWeights(self):
        if not self.getPar().use_delayed_update:
            raise RuntimeError()
        if self.getDeltaWeights() is not None:
            raise RuntimeError()
        if not self.use_delayed_update_ and self.getPar().use_delayed_update:
            self.use_delayed_update_ = True
            self.copyWeightsToBuffer()
        else:
            self.copyWeightsFromBuffer()

    def getAlphaLearningRate(self):
        return -1 / self.bwd_alpha_ if self.getDeltaWeights() is not None else self.getLearningRate() / self.bwd_alpha_

    def setFwdAlpha(self, fwd_alpha, with_noise):
        if with_noise:
            self.fwd_alpha_ = fwd_alpha * (1 + self.getPar().alpha_std * self.rw_rng_.sampleGauss())
            self.alpha_warning()
        else:
            self.fwd_alpha_ = fwd_alpha

    def setBwdAlpha(self, bwd_alpha, with_noise):
        if with_noise:
            self.bwd_alpha_ = bwd_alpha * (1 + self.getPar().alpha_std * self.rw_rng_.sampleGauss())
            self.alpha_warning()
        else:
            self.bwd_alpha_ = bwd_alpha

    def setAlphaScale(self, alpha):
        self.setFwdAlpha(alpha, True)
        self.setBwdAlpha(alpha, True)

    def getFwdAlpha(self):
        return self.fwd_alpha_

    def getBwdAlpha(self):
        return self.bwd_alpha_

    def setDeltaWeights(self, dw_extern):
        if dw_extern is not None:
            if dw_extern == self.delta_weights_extern_[0]:
                return
            if self.isDelayedUpdate():
                raise RuntimeError()
            self.delta_weights_extern_[0] = dw_extern
            for i in range(self.d_size_):
                self.delta_weights_extern_[i] = ptr_add(self.delta_weights_extern_[0], self.x_size_ * i)
        else:
            self.delta_weights_extern_[0] = None

    def getDeltaWeights(self):
        return self.delta_weights_extern_[0]

    def setVerbosityLevel(self, verbose):
        pass

    def forward(self, X_input, D_output, bias, m_batch, x_trans, d_trans, is_test):
        if m_batch == 1 and (not x_trans) and (not d_trans):
            if bias:
                self.forwardVectorBias(X_input, D_output, 1, 1, is_test)
            else:
                self.forwardVector__1(X_input, D_output, 1, 1, is_test)
        elif bias:
            self.forwardMatrixBias(X_input, D_output, m_batch, x_trans, d_trans, is_test)
        else:
            self.forwardMatrix(X_input, D_output, m_batch, x_trans, d_trans, is_test)

    def backward(self, D_input, X_output, bias, m_batch, d_trans, x_trans):
        if m_batch == 1 and (not x_trans) and (not d_trans):
            if bias:
                self.backwardVectorBias(D_input, X_output, 1, 1)
            else:
                self.backwardVector__1(D_input, X_output, 1, 1)
        elif bias:
            self.backwardMatrixBias(D_input, X_output, m_batch, d_trans, x_trans)
        else:
            self.backwardMatrix(D_input, X_output, m_batch, d_trans, x_trans)

    def update(self, X_input, D_input, bias, m_batch, x_trans, d_trans):
        self.last_update_m_batch_ = m_batch
        if m_batch == 1 and (not x_trans) and (not d_trans):
            if bias:
                self.updateVectorBias(X_input, D_input, 1, 1)
            else:
                self.updateVector__1(X_input, D_input, 1, 1)
        elif bias:
            self.updateMatrixBias(X_input, D_input, m_batch, x_trans, d_trans)
        else:
            self.updateMatrix(X_input, D_input, m_batch, x_trans, d_trans)

    def forwardTensor(self, X_input, D_output, bias, m_batch, dim3, trans, is_test):
        if dim3 == 1 or not trans:
            self.forward(X_input, D_output, bias, dim3 * m_batch, trans, trans, is_test)
        else:
            x_size = self.getXSize()
            d_size = self.getDSize()
            x_tensor = None
            d_tensor = None
            self.getTensorBuffer(x_tensor, d_tensor, m_batch, dim3)
            self.permute132(x_tensor, X_input, m_batch, x_size, dim3, bias)
            self.forwardMatrix(x_tensor, d_tensor, m_batch * dim3, True, True, is_test)
            self.permute132(D_output, d_tensor, m_batch, dim3, d_size, False)

    def backwardTensor(self, D_input, X_output, bias, m_batch, dim3, trans):
        if dim3 == 1 or not trans:
            self.backward(D_input, X_output, bias, dim3 * m_batch, trans, trans)
        else:
            x_size = self.getXSize()
            d_size = self.getDSize()
            x_tensor = None
            d_tensor = None
            self.getTensorBuffer(x_tensor, d_tensor, m_batch, dim3)
            self.permute132(d_tensor, D_input, m_batch, d_size, dim3, False)
            self.backward(d_tensor, x_tensor, bias, m_batch * dim3, True, True)
            b = 1 if bias else 0
            self.permute132(X_output, x_tensor, m_batch, dim3, x_size - b, False)

    def updateTensor(self, X_input, D_input, bias, m_batch, dim3, trans):
        if dim3 == 1 or not trans:
            self.update(X_input, D_input, bias, m_batch * dim3, trans, trans)
        else:
            x_size = self.getXSize()
            d_size = self.getDSize()
            x_tensor = None
            d_tensor = None
            self.getTensorBuffer(x_tensor, d_tensor, m_batch, dim3)
            self.permute132(x_tensor, X_input, m_batch, x_size, dim3, bias)
            self.permute132(d_tensor, D_input, m_batch, d_size, dim3, False)
            self.update(x_tensor, d_tensor, False, m_batch * dim3, True, True)

    def setMatrixIndices(self, indices):
        self.matrix_indices_set_ = True
        self.matrix_indices_ = indices

    def getMatrixIndices(self):
        if self.matrix_indices_set_:
            return self.matrix_indices_
        else:
            raise RuntimeError()

    def hasMatrixIndices(self):
        return self.matrix_indices_set_

    def forwardIndexed(self, X_input, D_output, total_input_size, m_batch, dim3, trans, is_test):
        x_tensor = None
        d_tensor = None
        self.getTensorBuffer(x_tensor, d_tensor, m_batch, dim3)
        self.copyIndexedInput(x_tensor, X_input, total_input_size, self.getMatrixIndices(), self.getXSize(), m_batch, dim3, trans, 0, None)
        if dim3 > 1 and trans:
            self.forwardMatrix(x_tensor, d_tensor, m_batch * dim3, trans, trans, is_test)
            self.permute132(D_output, d_tensor, m_batch, dim3, self.getDSize(), False)
        else:
            self.forwardMatrix(x_tensor, D_output, m_batch * dim3, trans, trans, is_test)

    def backwardIndexed(self, D_input, X_output, total_output_size, m_batch, dim3, trans):
        x_tensor = None
        d_tensor = None
        self.getTensorBuffer(x_tensor, d_tensor, m_batch, dim3)
        if dim3 == 1 or not trans:
            self.backwardMatrix(D_input, x_tensor, m_batch * dim3, trans, trans)
        else:
            self.permute132(d_tensor, D_input, m_batch, self.getDSize(), dim3, False)
            self.backwardMatrix(d_tensor, x_tensor, m_batch * dim3, trans, trans)
        self.setZero(X_output, total_output_size)
        self.copyIndexedOutput(X_output, x_tensor, total_output_size, self.getMatrixIndices(), self.getXSize(), m_batch, dim3, trans, 0, None)

    def updateIndexed(self, X_input, D_input, total_x_input_size, m_batch, dim3, trans):
        x_tensor = None
        d_tensor = None
        self.getTensorBuffer(x_tensor, d_tensor, m_batch, dim3)
        self.copyIndexedInput(x_tensor, X_input, total_x_input_size, self.getMatrixIndices(), self.getXSize(), m_batch, dim3, trans, 0, None)
        if trans:
            self.permute132(d_tensor, D_input, m_batch, self.getDSize(), dim3, False)
            self.update(x_tensor, d_tensor, False, m_batch * dim3, trans, trans)
        else:
            self.update(x_tensor, D_input, False, m_batch * dim3, trans, trans)

    def forwardIndexedSlice(self, X_input, D_output, total_input_size, m_batch, dim3, trans, m_batch_slice, batch_indices, is_test):
        x_tensor = None
        d_tensor = None
        self.getTensorBuffer(x_tensor, d_tensor, m_batch_slice, dim3)
        self.copyIndexedInput(x_tensor, X_input, total_input_size, self.getMatrixIndices(), self.getXSize(), m_batch, dim3, trans, m_batch_slice, batch_indices)
        self.forwardMatrix(x_tensor, d_tensor, m_batch_slice * dim3, trans, trans, is_test)
        self.copySliceOutput(D_output, d_tensor, self.getDSize(), m_batch, dim3, trans, m_batch_slice, batch_indices)

    def backwardIndexedSlice(self, D_input, X_output, total_output_size, m_batch, dim3, trans, m_batch_slice, batch_indices):
        x_tensor = None
        d_tensor = None
        self.getTensorBuffer(x_tensor, d_tensor, m_batch_slice, dim3)
        self.copySliceInput(d_tensor, D_input, self.getDSize(), m_batch, dim3, trans, m_batch_slice, batch_indices)
        self.backwardMatrix(d_tensor, x_tensor, m_batch_slice * dim3, trans, trans)
        self.copyIndexedOutput(X_output, x_tensor, total_output_size, self.getMatrixIndices(), self.getXSize(), m_batch, dim3, trans, m_batch_slice, batch_indices)

    def updateIndexedSlice(self, X_input, D_input, total_x_input_size, m_batch, dim3, trans, m_batch_slice, batch_indices):
        x_tensor = None
        d_tensor = None
        self.getTensorBuffer(x_tensor, d_tensor, m_batch_slice, dim3)
        self.copyIndexedInput(x_tensor, X_input, total_x_input_size, self.getMatrixIndices(), self.getXSize(), m_batch, dim3, trans, m_batch_slice, batch_indices)
        self.copySliceInput(d_tensor, D_input, self.getDSize(), m_batch, dim3, trans, m_batch_slice, batch_indices)
        self.update(x_tensor, d_tensor, False, m_batch_slice * dim3, trans, trans)

    def getContext(self):
        return None

    def hasInternalContext(self):
        return True

    def getPulseCounters(self):
        return make_vector_uint64_t()

    def getFBWeights(self, is_test):
        use_fb = self.fb_weights_ is not None and (not is_test or (self.fb_weight_modifier_ is not None and self.fb_weight_modifier_.enableDuringTest()))
        return self.fb_weights_ if use_fb else self.weights_

    def getUpWeights(self):
        if self.use_delayed_update_:
            return self.getWeightsBuffer()
        else:
            dw = self.delta_weights_extern_
            return dw if dw[0] is not None else self.getWeightsPtr()

    def getUpBeta(self):
        return 1 if self.getDeltaWeights() is None else 0

    def copyWeightsFromBuffer(self):
        copy__2(self.x_size_ * self.d_size_, self.getWeightsBuffer()[0], 1, self.getWeightsPtr()[0], 1)

    def copyWeightsToBuffer(self):
        copy__2(self.x_size_ * self.d_size_, self.getWeightsPtr()[0], 1, self.getWeightsBuffer()[0], 1)

    def getWeightsBuffer(self):
        return self.weights_buffer_

    def copyToMatrixBiasBuffer(self, X_input_without_bias, m_batch, x_trans):
        bias_buffer = self.getMatrixBiasBuffer(m_batch)
        makeBias__1(bias_buffer, X_input_without_bias, self.x_size_, m_batch, x_trans)
        return bias_buffer

    def copyFromMatrixBiasBuffer(self, X_input_without_bias, m_batch, x_trans, bias_buffer):
        copyWithoutBias(X_input_without_bias, bias_buffer, self.x_size_, m_batch, x_trans)

    def releaseMatrixBiasBuffer(self):
        pass

    def getMatrixBiasBuffer(self, m_batch):
        self.temp_x_matrix_bias_.resize(m_batch * self.x_size_)
        return self.temp_x_matrix_bias_

    def forwardMatrixBias(self, X_input_without_bias, D_output, m_batch, x_trans, d_trans, is_test):
        bias_buffer = self.copyToMatrixBiasBuffer(X_input_without_bias, m_batch, x_trans)
        self.forwardMatrix(bias_buffer, D_output, m_batch, x_trans, d_trans, is_test)
        self.releaseMatrixBiasBuffer()

    def backwardMatrixBias(self, D_input, X_output_without_bias, m_batch, d_trans, x_trans):
        bias_buffer = self.getMatrixBiasBuffer(m_batch)
        self.backwardMatrix(D_input, bias_buffer, m_batch, d_trans, x_trans)
        self.copyFromMatrixBiasBuffer(X_output_without_bias, m_batch, x_trans, bias_buffer)
        self.releaseMatrixBiasBuffer()

    def updateMatrixBias(self, X_input_without_bias, D_input, m_batch, x_trans, d_trans):
        bias_buffer = self.copyToMatrixBiasBuffer(X_input_without_bias, m_batch, x_trans)
        self.updateMatrix(bias_buffer, D_input, m_batch, x_trans, d_trans)
        self.releaseMatrixBiasBuffer()

    def copyToVectorBiasBuffer(self, x_input_without_bias, x_inc):
        copy__2(self.x_size_ - 1, x_input_without_bias, x_inc, self.temp_x_vector_bias_, 1)
        self.temp_x_vector_bias_[self.x_size_ - 1] = 1
        return self.temp_x_vector_bias_

    def copyFromVectorBiasBuffer(self, x_output_without_bias, x_inc):
        copy__2(self.x_size_ - 1, self.temp_x_vector_bias_, 1, x_output_without_bias, x_inc)

    def getVectorBiasBuffer(self):
        return self.temp_x_vector_bias_

    def forwardVector__1(self, x_input, d_output, x_inc, d_inc, is_test):
        gemv__2(CblasRowMajor, CblasNoTrans, self.d_size_, self.x_size_, self.fwd_alpha_, self.getFBWeights(is_test)[0], self.x_size_, x_input, x_inc, 0, d_output, d_inc)

    def backwardVector__1(self, d_input, x_output, d_inc, x_inc):
        gemv__2(CblasRowMajor, CblasTrans, self.d_size_, self.x_size_, self.bwd_alpha_, self.getFBWeights(False)[0], self.x_size_, d_input, d_inc, 0, x_output, x_inc)

    def updateVector__1(self, x_input, d_input, x_inc, d_inc):
        if not self.getDeltaWeights() is not None:
            ger__2(CblasRowMajor, self.d_size_, self.x_size_, -self.getAlphaLearningRate(), d_input, d_inc, x_input, x_inc, self.getUpWeights()[0], self.x_size_)
        elif x_inc == 1 and d_inc == 1:
            RPUSimple.updateMatrix(self, x_input, d_input, 1, False, False)
        else:
            raise RuntimeError()

    def forwardVectorBias(self, x_input_without_bias, d_output, x_inc, d_inc, is_test):
        bias_buffer = self.copyToVectorBiasBuffer(x_input_without_bias, x_inc)
        self.forwardVector__1(bias_buffer, d_output, 1, d_inc, is_test)

    def backwardVectorBias(self, d_input, x_output_without_bias, d_inc, x_inc):
        self.backwardVector__1(d_input, self.getVectorBiasBuffer(), d_inc, 1)
        self.copyFromVectorBiasBuffer(x_output_without_bias, x_inc)

    def updateVectorBias(self, x_input_without_bias, d_input, x_inc, d_inc):
        bias_buffer = self.copyToVectorBiasBuffer(x_input_without_bias, x_inc)
        self.updateVector__1(bias_buffer, d_input, 1, d_inc)

    def forwardMatrix(self, X_input, D_output, m_batch, x_trans, d_trans, is_test):
        if d_trans:
            gemm__2(CblasRowMajor, CblasNoTrans, CblasNoTrans if x_trans else CblasTrans, self.d_size_, m_batch, self.x_size_, self.fwd_alpha_, self.getFBWeights(is_test)[0], self.x_size_, X_input, m_batch if x_trans else self.x_size_, 0, D_output, m_batch)
        else:
            gemm__2(CblasRowMajor, CblasTrans if x_trans else CblasNoTrans, CblasTrans, m_batch, self.d_size_, self.x_size_, self.fwd_alpha_, X_input, m_batch if x_trans else self.x_size_, self.getFBWeights(is_test)[0], self.x_size_, 0, D_output, self.d_size_)

    def backwardMatrix(self, D_input, X_output, m_batch, d_trans, x_trans):
        if x_trans:
            gemm__2(CblasRowMajor, CblasTrans, CblasNoTrans if d_trans else CblasTrans, self.x_size_, m_batch, self.d_size_, self.bwd_alpha_, self.getFBWeights(False)[0], self.x_size_, D_input, m_batch if d_trans else self.d_size_, 0, X_output, m_batch)
        else:
            gemm__2(CblasRowMajor, CblasTrans if d_trans else CblasNoTrans, CblasNoTrans, m_batch, self.x_size_, self.d_size_, self.bwd_alpha_, D_input, m_batch if d_trans else self.d_size_, self.getFBWeights(False)[0], self.x_size_, 0, X_output, self.x_size_)

    def updateMatrix(self, X_input, D_input, m_batch, x_trans, d_trans):
        gemm__2(CblasRowMajor, CblasNoTrans if d_trans else CblasTrans, CblasTrans if x_trans else CblasNoTrans, self.d_size_, self.x_size_, m_batch, -self.getAlphaLearningRate(), D_input, m_batch if d_trans else self.d_size_, X_input, m_batch if x_trans else self.x_size_, self.getUpBeta(), self.getUpWeights()[0], self.x_size_)

    def getTensorBuffer(self, x_tensor_ptr, d_tensor_ptr, m_batch, dim3):
        n = (self.x_size_ + self.d_size_) * dim3 * m_batch
        self.temp_tensor_.resize(n)
        x_tensor_ptr[0] = self.temp_tensor_
        d_tensor_ptr[0] = ptr_add(self.temp_tensor_, self.x_size_ * dim3 * m_batch)

    def permute132(self, out_tensor, in_tensor, dim1, dim2, dim3, bias2):
        permute132(out_tensor, in_tensor, dim1, dim2, dim3, bias2)

    def copyIndexedInput(self, out_tensor, src_tensor, total_input_size, indices_shifted, size, m_batch, dim3, trans, m_batch_slice, batch_indices):
        m = m_batch
        input_matrix_size = total_input_size // dim3
        M = m_batch * size
        sz_all = size * m_batch * dim3
        batch_slice = m_batch_slice > 0
        if trans:
            if batch_slice:
                sz_all = size * m_batch_slice * dim3
                M = m_batch_slice * dim3
                for idx in range(sz_all):
                    i_dim3 = idx % M // m_batch_slice
                    i_batch_slice = idx % m_batch_slice
                    i_xd = idx // M
                    batch_idx = batch_indices[i_batch_slice + m_batch * i_dim3]
                    ind_idx = batch_idx + m_batch * i_xd
                    j_shifted = indices_shifted[ind_idx]
                    out_tensor[idx] = j_shifted if j_shifted <= 1 else src_tensor[j_shifted - 2 + i_dim3 * input_matrix_size]
            else:
                L = m_batch * dim3
                for idx in range(sz_all):
                    i = idx % L // m * M + idx % m + idx // L * m
                    j_shifted = indices_shifted[i % M]
                    out_tensor[idx] = j_shifted if j_shifted <= 1 else src_tensor[j_shifted - 2 + i // M * input_matrix_size]
        elif batch_slice:
            sz_all = size * m_batch_slice * dim3
            M = m_batch_slice * size
            for idx in range(sz_all):
                i_dim3 = idx // M
                i_batch_slice = idx % M // size
                i_xd = idx % size
                batch_idx = batch_indices[i_batch_slice + m_batch * i_dim3]
                ind_idx = batch_idx * size + i_xd
                j_shifted = indices_shifted[ind_idx]
                out_tensor[idx] = j_shifted if j_shifted <= 1 else src_tensor[j_shifted - 2 + i_dim3 * input_matrix_size]
        else:
            for idx in range(sz_all):
                j_shifted = indices_shifted[idx % M]
                out_tensor[idx] = j_shifted if j_shifted <= 1 else src_tensor[j_shifted - 2 + idx // M * input_matrix_size]

    def copyIndexedOutput(self, out_tensor, src_tensor, total_output_size, indices_shifted, size, m_batch, dim3, trans, m_batch_slice, batch_indices):
        batch_slice = m_batch_slice > 0
        m = m_batch
        output_matrix_size = total_output_size // dim3
        M = m_batch * size
        sz_all = size * m_batch * dim3
        if trans:
            if batch_slice:
                sz_all = size * m_batch_slice * dim3
                M = m_batch_slice * dim3
                for idx in range(sz_all):
                    i_dim3 = idx % M // m_batch_slice
                    i_batch_slice = idx % m_batch_slice
                    i_xd = idx // M
                    batch_idx = batch_indices[i_batch_slice + m_batch * i_dim3]
                    ind_idx = batch_idx + m_batch * i_xd
                    j_shifted = indices_shifted[ind_idx]
                    if j_shifted > 1:
                        out_tensor[j_shifted - 2 + i_dim3 * output_matrix_size] += src_tensor[idx]
            else:
                L = m_batch * dim3
                for idx in range(sz_all):
                    i = idx % L // m * M + idx % m + idx // L * m
                    j_shifted = indices_shifted[i % M]
                    if j_shifted > 1:
                        out_tensor[j_shifted - 2 + i // M * output_matrix_size] += src_tensor[idx]
        elif batch_slice:
            sz_all = size * m_batch_slice * dim3
            M = m_batch_slice * size
            for idx in range(sz_all):
                i_dim3 = idx // M
                i_batch_slice = idx % M // size
                i_xd = idx % size
                batch_idx = batch_indices[i_batch_slice + m_batch * i_dim3]
                ind_idx = batch_idx * size + i_xd
                j_shifted = indices_shifted[ind_idx]
                if j_shifted > 1:
                    out_tensor[j_shifted - 2 + i_dim3 * output_matrix_size] += src_tensor[idx]
        else:
            for idx in range(sz_all):
                j_shifted = indices_shifted[idx % M]
                if j_shifted > 1:
                    out_tensor[j_shifted - 2 + idx // M * output_matrix_size] += src_tensor[idx]

    def copySliceInput(self, out_tensor, src_tensor, size, m_batch, dim3, trans, m_batch_slice, batch_indices):
        input_matrix_size = m_batch * size
        sz_all = size * m_batch_slice * dim3
        if trans:
            M = m_batch_slice * dim3
            for idx in range(sz_all):
                i_dim3 = idx % M // m_batch_slice
                i_batch_slice = idx % m_batch_slice
                i_xd = idx // M
                batch_idx = batch_indices[i_batch_slice + m_batch * i_dim3]
                ind_idx = batch_idx + m_batch * i_xd
                out_tensor[idx] = src_tensor[ind_idx + i_dim3 * input_matrix_size]
        else:
            M = m_batch_slice * size
            for idx in range(sz_all):
                i_dim3 = idx // M
                i_batch_slice = idx % M // size
                i_xd = idx % size
                batch_idx = batch_indices[i_batch_slice + m_batch * i_dim3]
                ind_idx = batch_idx * size + i_xd
                out_tensor[idx] = src_tensor[ind_idx + i_dim3 * input_matrix_size]

    def copySliceOutput(self, out_tensor, src_tensor, size, m_batch, dim3, trans, m_batch_slice, batch_indices):
        output_matrix_size = m_batch * size
        sz_all = size * m_batch_slice * dim3
        if trans:
            M = m_batch_slice * dim3
            for idx in range(sz_all):
                i_dim3 = idx % M // m_batch_slice
                i_batch_slice = idx % m_batch_slice
                i_xd = idx // M
                batch_idx = batch_indices[i_batch_slice + m_batch * i_dim3]
                ind_idx = batch_idx + m_batch * i_xd
                out_tensor[ind_idx + i_dim3 * output_matrix_size] = src_tensor[idx]
        else:
            M = m_batch_slice * size
            for idx in range(sz_all):
                i_dim3 = idx // M
                i_batch_slice = idx % M // size
                i_xd = idx % size
                batch_idx = batch_indices[i_batch_slice + m_batch * i_dim3]
                ind_idx = batch_idx * size + i_xd
                out_tensor[ind_idx + i_dim3 * output_matrix_size] = src_tensor[idx]

    def setZero(self, v, size):
        for i in range(size):
            v[i] = 0

    def alpha_warning(self):
        pass

    def initialize__3(self, x_sz, d_sz):
        self.x_size_ = x_sz
        self.d_size_ = d_sz
        self.use_delayed_update_ = False
        self.weights_ = Array_2D_Get(d_sz, x_sz)
        self.fb_weights_ = None
        self.delta_weights_extern_.resize(d_sz, None)
        for i in range(d_sz):
            for j in range(x_sz):
                self.weights_[i][j] = (i + 1) * 0.01 + (0.01 * j + 1)
        self.weights_buffer_ = Array_2D_Get(d_sz, x_sz)
        self.matrix_indices_ = None
        self.matrix_indices_set_ = False
        self.temp_x_vector_bias_.resize(x_sz)
        self.rng_ = make_shared_shared_ptr__NonArray_RNG(0)
        self.rw_rng_ = make_shared_shared_ptr__NonArray_RealWorldRNG(0)
        self.last_update_m_batch_ = 1
        self.fwd_alpha_ = 1
        self.bwd_alpha_ = 1



@of("rpucuda.rpu.SimpleMetaParameter")
class SimpleMetaParameter:
    diffusion = 0
    lifetime = 0
    alpha_std = 0
    use_delayed_update = False
    def ctor(self):
        self.drift.setSimpleDrift()

    def createRPUArray__1(self, x_size, d_size):
        rpu = make_RPUSimple(x_size, d_size)
        rpu.populateParameter__1(self)
        rpu.setWeightsUniformRandom(-0.1, 0.1)
        rpu.setLearningRate(0.1)
        return rpu


@of("rpucuda.rpu_pulsed.swap__20")
def swap__20(a, b):
    a.f_io, b.f_io = (b.f_io, a.f_io)
    a.b_io, b.b_io = (b.b_io, a.b_io)
    a.up, b.up = (b.up, a.up)
    a._par_initialized, b._par_initialized = (b._par_initialized, a._par_initialized)


@of("rpucuda.rpu_pulsed.swap__27")
def swap__27(a, b):
    swap__28(a, b)
    swap__20(a.par_, b.par_)
    a.pwu_, b.pwu_ = (b.pwu_, a.pwu_)
    a.rpu_device_, b.rpu_device_ = (b.rpu_device_, a.rpu_device_)
    a.fb_pass_, b.fb_pass_ = (b.fb_pass_, a.fb_pass_)


@of("rpucuda.rpu_pulsed.PulsedMetaParameter")
class PulsedMetaParameter:
    _par_initialized = False
    def createRPUArray__2(self, x_size, d_size, dp):
        rpu = make_RPUPulsed(x_size, d_size)
        rpu.populateParameter__2(self, dp)
        rpu.setWeightsUniformRandom(-0.1, 0.1)
        rpu.setLearningRate(0.1)
        return rpu

    def initialize__3(self, x_size, d_size):
        if not self._par_initialized:
            self._par_initialized = True
            self.up.initialize__1()
            self.f_io.initializeForForward(x_size, d_size)
            self.b_io.initializeForBackward(x_size, d_size)



@of("rpucuda.rpu_pulsed.RPUPulsed")
class RPUPulsed:
    rpu_device_ = None
    pwu_ = None
    fb_pass_ = None
    def ctor__1(self):
        pass

    def ctor__2(self, x_sz, d_sz):
        RPUSimple.ctor__2(self, x_sz, d_sz)

    def populateParameter__2(self, p, dp):
        RPUSimple.populateParameter__1(self, dp)
        p.initialize__3(self.x_size_, self.d_size_)
        self.fb_pass_ = make_unique_unique_ptr_ForwardBackwardPassIOManaged(self.x_size_, self.d_size_, self.rng_)
        self.fb_pass_.populateFBParameter(p.f_io, p.b_io)
        self.pwu_ = make_unique_unique_ptr_PulsedRPUWeightUpdater(self.x_size_, self.d_size_, self.rng_)
        self.pwu_.setUpPar(p.up)
        rng = make_RealWorldRNG(dp.construction_seed)
        if p.up.pulse_type == PulseType.None_:
            if dp is None:
                raise RuntimeError()
            dp_simple = dp[0]
            self.rpu_device_ = dp_simple.createDeviceUnique(self.x_size_, self.d_size_, rng)
        else:
            self.rpu_device_ = dp.createDeviceUnique(self.x_size_, self.d_size_, rng)
        self.rpu_device_.onSetWeights(self.getWeightsPtr())
        self.par_ = p[0]

    def decayWeights__1(self, bias_no_decay):
        if self.rpu_device_ is None:
            raise RuntimeError()
        self.rpu_device_.decayWeights__2(self.getWeightsPtr(), bias_no_decay)

    def decayWeights__3(self, alpha, bias_no_decay):
        if self.rpu_device_ is None:
            raise RuntimeError()
        self.rpu_device_.decayWeights__4(self.getWeightsPtr(), alpha, bias_no_decay)

    def driftWeights__1(self, time_since_last_call):
        if self.rpu_device_ is None:
            raise RuntimeError()
        self.rpu_device_.driftWeights__2(self.getWeightsPtr(), time_since_last_call, self.rng_)

    def diffuseWeights__1(self):
        if self.rpu_device_ is None:
            raise RuntimeError()
        self.rpu_device_.diffuseWeights__2(self.getWeightsPtr(), self.rng_)

    def diffuseWeightsPink(self):
        if self.rpu_device_ is None:
            raise RuntimeError()
        if self.isDelayedUpdate():
            raise RuntimeError()
        RPUSimple.diffuseWeightsPink(self)
        if self.rpu_device_.implements() == DeviceUpdateType.FloatingPoint:
            return
        elif self.rpu_device_.implements() == DeviceUpdateType.ConstantStep:
            self.rpu_device_.onSetWeights(self.getWeightsPtr())
        else:
            raise RuntimeError()

    def clipWeights__3(self, clip):
        if self.rpu_device_ is None:
            raise RuntimeError()
        self.rpu_device_.clipWeights__4(self.getWeightsPtr(), clip)

    def clipWeights__1(self, wclpar):
        if self.rpu_device_ is None:
            raise RuntimeError()
        if wclpar.type == WeightClipType.FixedValue:
            self.clipWeights__3(wclpar.fixed_value)
        elif self.rpu_device_.implements() == DeviceUpdateType.FloatingPoint:
            RPUSimple.clipWeights__1(self, wclpar)
        else:
            raise RuntimeError()

    def remapWeights(self, wrmpar, scales, biases):
        if not self.pwu_.checkForFPUpdate(self.rpu_device_):
            raise RuntimeError()
        if self.rpu_device_ is None:
            raise RuntimeError()
        if self.isDelayedUpdate():
            raise RuntimeError()
        RPUSimple.remapWeights(self, wrmpar, scales, biases)

    def swaWeights(self, wrmpar, swa_weights, iter_v, scales, biases):
        if self.rpu_device_ is None:
            raise RuntimeError()
        if self.isDelayedUpdate():
            raise RuntimeError()
        if wrmpar.type != WeightRemapType.None_ and (not self.pwu_.checkForFPUpdate(self.rpu_device_)):
            raise RuntimeError()
        modfied = RPUSimple.swaWeights(self, wrmpar, swa_weights, iter_v, scales, biases)
        if modfied:
            self.rpu_device_.onSetWeights(self.getWeightsPtr())
        return modfied

    def resetCols__1(self, start_col, n_cols, reset_prob):
        if reset_prob != 0:
            if self.rpu_device_ is None:
                raise RuntimeError()
            self.rpu_device_.resetCols__2(self.getWeightsPtr(), start_col, n_cols, reset_prob, self.rw_rng_)

    def updateVectorWithCounts(self, x_input, d_input, x_inc, d_inc, x_counts32, d_counts32):
        rpu_device = self.rpu_device_
        if rpu_device is None:
            raise RuntimeError()
        if self.getDeltaWeights() is not None:
            raise RuntimeError()
        self.pwu_.updateVectorWithDeviceAndCounts(self.getUpWeights(), x_input, x_inc, d_input, d_inc, self.getAlphaLearningRate(), self.last_update_m_batch_, rpu_device, x_counts32, d_counts32)

    def getWeightsReal(self, weightsptr):
        if self.rpu_device_ is None:
            raise RuntimeError()
        x_sz = self.getXSize()
        eye = Array_2D_Get_Eye(x_sz)
        alpha = self.getFwdAlpha()
        self.setFwdAlpha(1, False)
        self.forwardMatrix(eye[0], weightsptr, x_sz, False, True, False)
        self.setFwdAlpha(alpha, False)
        Array_2D_Free__1(eye)

    def setWeightsReal(self, weightsptr, n_loops):
        if self.rpu_device_ is None:
            raise RuntimeError()
        x_sz = self.getXSize()
        d_sz = self.getDSize()
        w_current = self.getWeightsPtr()[0]
        weight_granularity = 0.001
        w_min = -1
        w_max = 1
        dpar = self.rpu_device_.getPar()
        if dpar is not None:
            w_min = dpar.w_min
            w_max = dpar.w_max
            weight_granularity = self.rpu_device_.getWeightGranularity()
        BL = 0
        A = 0
        B = 0
        BL, A, B = self.getMetaPar().up.calculateBlAB(BL, A, B, self.getLearningRate(), weight_granularity)
        mx_change = BL * weight_granularity
        range_v = w_max - w_min
        iter_v = to_int(to_int(m_round(n_loops * range_v / mx_change)))
        delta = Array_2D_Get(d_sz, x_sz)
        eye = Array_2D_Get_Eye(x_sz)
        fwd_alpha = self.getFwdAlpha()
        bwd_alpha = self.getBwdAlpha()
        self.setFwdAlpha(1, False)
        self.setBwdAlpha(1, False)
        for k in range(iter_v):
            self.forwardMatrix(eye[0], delta[0], x_sz, False, True, False)
            for i in range(x_sz * d_sz):
                delta[0][i] -= weightsptr[i]
            self.updateMatrix(eye[0], delta[0], x_sz, False, True)
        self.setFwdAlpha(fwd_alpha, False)
        self.setBwdAlpha(bwd_alpha, False)
        avg_dev = 0
        for i in range(x_sz * d_sz):
            avg_dev += abs(weightsptr[i] - w_current[i])
        avg_dev /= x_sz * d_sz
        self.copyWeightsToBuffer()
        Array_2D_Free__1(eye)
        Array_2D_Free__1(delta)

    def setWeightsUniformRandom(self, min_value, max_value):
        if self.rpu_device_ is None:
            raise RuntimeError()
        RPUSimple.setWeightsUniformRandom(self, min_value, max_value)
        self.rpu_device_.onSetWeights(self.getWeightsPtr())

    def setWeights(self, weightsptr):
        if self.rpu_device_ is None:
            raise RuntimeError()
        RPUSimple.setWeights(self, weightsptr)
        self.rpu_device_.onSetWeights(self.getWeightsPtr())

    def applyWeightUpdate(self, dw_and_current_weight_out):
        w = self.getWeightsPtr()[0]
        size = self.d_size_ * self.x_size_
        for i in range(size):
            w[i] += dw_and_current_weight_out[i]
        if self.rpu_device_ is not None:
            self.rpu_device_.onSetWeights(self.getWeightsPtr())
        for t__1 in range(size):
            dw_and_current_weight_out[t__1] = w[t__1]

    def getMetaPar(self):
        return self.par_

    def getDeviceParameterNames(self, names):
        if self.rpu_device_ is None:
            raise RuntimeError()
        self.rpu_device_.getDPNames(names)

    def getDeviceParameter__1(self, data_ptrs):
        if self.rpu_device_ is None:
            raise RuntimeError()
        self.rpu_device_.getDeviceParameter__2(self.getWeightsPtr(), data_ptrs)

    def setDeviceParameter__1(self, data_ptrs):
        if self.rpu_device_ is None:
            raise RuntimeError()
        self.rpu_device_.setDeviceParameter__2(self.getWeightsPtr(), data_ptrs)

    def dumpExtra(self, extra, prefix):
        RPUSimple.dumpExtra(self, extra, prefix)
        state = make_state_t()
        self.pwu_.dumpExtra(state, 'pwu')
        self.fb_pass_.dumpExtra(state, 'fb_pass')
        self.rpu_device_.dumpExtra(state, 'rpu_device')
        insertWithPrefix(extra, state, prefix)

    def loadExtra(self, extra, prefix, strict):
        RPUSimple.loadExtra(self, extra, prefix, strict)
        state = selectWithPrefix(extra, prefix)
        self.pwu_.loadExtra(state, 'pwu', strict)
        self.fb_pass_.loadExtra(state, 'fb_pass', strict)
        self.rpu_device_.loadExtra(state, 'rpu_device', strict)

    def getHiddenUpdateIdx(self):
        if self.rpu_device_ is None:
            raise RuntimeError()
        return self.rpu_device_.getHiddenUpdateIdx()

    def setHiddenUpdateIdx(self, idx):
        if self.rpu_device_ is None:
            raise RuntimeError()
        self.rpu_device_.setHiddenUpdateIdx(idx)

    def setLearningRate(self, lr):
        if lr != self.getLearningRate():
            RPUSimple.setLearningRate(self, lr)
            if self.rpu_device_ is not None and self.rpu_device_.isPulsedDevice():
                BL = 0
                A = 0
                B = 0
                BL, A, B = self.getMetaPar().up.calculateBlAB(BL, A, B, lr, self.rpu_device_.getWeightGranularity())

    def printParametersToStream(self, ss):
        self.getMetaPar().printToStream__2(ss, not self.rpu_device_.usesUpdateParameter())
        self.rpu_device_.printToStream__1(ss)

    def printRPUParameter(self, x_count, d_count):
        self.rpu_device_.printDP(x_count, d_count)

    def cloneDevice(self):
        if self.rpu_device_ is not None:
            return self.rpu_device_.cloneUnique()
        else:
            raise RuntimeError()

    def getRPUDevice(self):
        return self.rpu_device_

    def getFBParameter(self):
        if self.rpu_device_ is None:
            raise RuntimeError()
        return self.fb_pass_.getFBParameter()

    def setFBParameter__2(self, fb_pars):
        if self.rpu_device_ is None:
            raise RuntimeError()
        self.fb_pass_.setFBParameter__1(fb_pars)

    def forwardVector__1(self, x_input, d_output, x_inc, d_inc, is_test):
        self.fb_pass_.forwardVector__2(self.getFBWeights(is_test), x_input, x_inc, d_output, d_inc, self.getFwdAlpha(), is_test)

    def backwardVector__1(self, d_input, x_output, d_inc, x_inc):
        self.fb_pass_.backwardVector__2(self.getFBWeights(False), d_input, d_inc, x_output, x_inc, self.getBwdAlpha())

    def updateVector__1(self, x_input, d_input, x_inc, d_inc):
        if self.getDeltaWeights() is not None:
            if x_inc != 1 or d_inc != 1:
                raise RuntimeError()
            self.updateMatrix(x_input, d_input, 1, False, False)
        else:
            self.pwu_.updateVectorWithDevice(self.getUpWeights(), x_input, x_inc, d_input, d_inc, self.getAlphaLearningRate(), self.last_update_m_batch_, self.rpu_device_)

    def forwardMatrix(self, X_input, D_output, m_batch, x_trans, d_trans, is_test):
        RPUAbstract.forwardMatrix(self, X_input, D_output, m_batch, x_trans, d_trans, is_test)

    def backwardMatrix(self, D_input, X_output, m_batch, d_trans, x_trans):
        RPUAbstract.backwardMatrix(self, D_input, X_output, m_batch, d_trans, x_trans)

    def updateMatrix(self, X_input, D_input, m_batch, x_trans, d_trans):
        if self.pwu_.checkForFPUpdate(self.rpu_device_):
            RPUSimple.updateMatrix(self, X_input, D_input, m_batch, x_trans, d_trans)
        else:
            local_dw = self.getDeltaWeights()
            if local_dw is not None:
                self.setDeltaWeights(None)
                size = self.d_size_ * self.x_size_
                for t__1 in range(size):
                    local_dw[t__1] = self.getUpWeights()[0][t__1]
            RPUAbstract.updateMatrix(self, X_input, D_input, m_batch, x_trans, d_trans)
            if local_dw is not None:
                used_lr = self.getAlphaLearningRate()
                self.setDeltaWeights(local_dw)
                self.getAndResetWeightUpdate(local_dw, self.getAlphaLearningRate() / used_lr)


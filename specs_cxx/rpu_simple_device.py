@of("rpucuda.rpu_simple_device.swap__1")
def swap__1(a, b):
    a, b = (b, a)
    a._device_parameter_mode_manual, b._device_parameter_mode_manual = (b._device_parameter_mode_manual, a._device_parameter_mode_manual)
    a.construction_seed, b.construction_seed = (b.construction_seed, a.construction_seed)
    a._par_initialized, b._par_initialized = (b._par_initialized, a._par_initialized)


@of("rpucuda.rpu_simple_device.swap__30")
def swap__30(a, b):
    a.par_storage_, b.par_storage_ = (b.par_storage_, a.par_storage_)
    a.size_, b.size_ = (b.size_, a.size_)
    a.x_size_, b.x_size_ = (b.x_size_, a.x_size_)
    a.d_size_, b.d_size_ = (b.d_size_, a.d_size_)
    a.wdrifter_, b.wdrifter_ = (b.wdrifter_, a.wdrifter_)


@of("rpucuda.rpu_simple_device.swap__31")
def swap__31(a, b):
    swap__1(a, b)
    a.reset_std, b.reset_std = (b.reset_std, a.reset_std)


@of("rpucuda.rpu_simple_device.AbstractRPUDevice")
class AbstractRPUDevice:
    def ctor(self):
        pass

    def getHiddenUpdateIdx(self):
        return 0

    def setHiddenUpdateIdx(self, idx):
        pass

    def isPulsedDevice(self):
        return False

    def hasDirectUpdate(self):
        return False

    def usesUpdateParameter(self):
        return not self.hasDirectUpdate()

    def doDirectVectorUpdate(self, weights, x_input, x_inc, d_input, d_inc, learning_rate, m_batch_info, up):
        raise RuntimeError()

    def cloneUnique(self):
        return self.clone()

    def dispMetaParameter(self):
        self.printToStream__1(ss)

    def dispType(self):
        self.disp__2(ss)

    def dispInfo(self):
        self.dispMetaParameter()
        self.dispType()



@of("rpucuda.rpu_simple_device.AbstractRPUDeviceMetaParameter")
class AbstractRPUDeviceMetaParameter:
    _device_parameter_mode_manual = False
    construction_seed = 0
    _par_initialized = False
    def initialize__1(self):
        self._par_initialized = True
        self._device_parameter_mode_manual = False
        self.diffusion = max(self.diffusion, 0)
        self.lifetime = max(self.lifetime, 0)

    def createDeviceUnique(self, x_size, d_size, rng):
        return self.createDevice(x_size, d_size, rng)

    def cloneUnique(self):
        return self.clone()



@of("rpucuda.rpu_simple_device.SimpleRPUDevice")
class SimpleRPUDevice:
    x_size_ = 0
    d_size_ = 0
    size_ = 0
    wdrifter_ = None
    par_storage_ = None
    def ctor__1(self):
        pass

    def clone(self):
        return make_SimpleRPUDevice(self)

    def getDPNames(self, names):
        names.clear()

    def getDeviceParameter__2(self, weights, data_ptrs):
        pass

    def setDeviceParameter__2(self, out_weights, data_ptrs):
        pass

    def getHiddenWeightsCount(self):
        return 0

    def setHiddenWeights(self, data):
        pass

    def printDP(self, x_count, d_count):
        pass

    def disp__2(self, ss):
        pass

    def getDSize(self):
        return self.d_size_

    def getXSize(self):
        return self.x_size_

    def getPar(self):
        return self.par_storage_

    def onSetWeights(self, weights):
        return False

    def implements(self):
        return self.getPar().implements()

    def hasWDrifter(self):
        return self.wdrifter_ is not None

    def ctor__2(self, x_sz, d_sz):
        self.initialize__3(x_sz, d_sz)

    def ctor__3(self, x_sz, d_sz, par, rng):
        self.ctor__2(x_sz, d_sz)
        self.populate__18(par, rng)

    def decayWeights__2(self, weights, bias_no_decay):
        self.decayWeights__4(weights, 1, bias_no_decay)

    def decayWeights__4(self, weights, alpha, bias_no_decay):
        lifetime = self.getPar().lifetime
        decay_rate = 1 / lifetime if lifetime > 1 else 0
        decay_scale = 1 - alpha * decay_rate
        if decay_scale > 0 and decay_scale < 1:
            if not bias_no_decay:
                scal__2(self.size_, decay_scale, weights[0], 1)
            else:
                size = self.d_size_ * self.x_size_
                w = weights[0]
                last_col = self.x_size_ - 1
                for i in range(size):
                    w[i] *= 1 if i % self.x_size_ == last_col else decay_scale

    def driftWeights__2(self, weights, time_since_last_call, rng):
        if self.hasWDrifter():
            self.wdrifter_.apply__3(weights[0], time_since_last_call, rng)

    def diffuseWeights__2(self, weights, rng):
        diffusion = self.getPar().diffusion
        if diffusion > 0:
            w = weights[0]
            for i in range(self.size_):
                w[i] += diffusion * rng.sampleGauss()

    def clipWeights__4(self, weights, clip):
        if clip >= 0:
            w = weights[0]
            for i in range(self.size_):
                w[i] = min(max(w[i], -clip), clip)

    def resetCols__2(self, weights, start_col, n_col_in, reset_prob, rng):
        w = weights[0]
        n_col = n_col_in if n_col_in >= 0 else self.x_size_
        reset_std = self.getPar().reset_std
        for j in range(self.x_size_):
            if start_col + n_col <= self.x_size_ and j >= start_col and (j < start_col + n_col) or (start_col + n_col > self.x_size_ and (j >= start_col or j < n_col - (self.x_size_ - start_col))):
                for i in range(self.d_size_):
                    if reset_prob == 1 or rng.sampleUniform__1() < reset_prob:
                        k = i * self.x_size_ + j
                        w[k] = reset_std * rng.sampleGauss() if reset_std > 0 else 0

    def getWDrifter(self):
        if self.hasWDrifter():
            return self.wdrifter_
        else:
            return None

    def dumpExtra(self, extra, prefix):
        state = make_state_t()
        if self.hasWDrifter():
            self.wdrifter_.dumpExtra(state, 'wdrifter')
            insertWithPrefix(extra, state, prefix)

    def loadExtra(self, extra, prefix, strict):
        if self.hasWDrifter():
            state = selectWithPrefix(extra, prefix)
            self.wdrifter_.loadExtra(state, 'wdrifter', strict)

    def populate__18(self, p, rng):
        self.par_storage_ = p.cloneUnique()
        self.par_storage_.initialize__1()
        if p.drift.nu > 0:
            self.wdrifter_ = make_unique_unique_ptr_WeightDrifter(self.size_, p.drift, rng)
        else:
            self.wdrifter_ = None

    def initialize__3(self, x_size, d_size):
        self.x_size_ = x_size
        self.d_size_ = d_size
        self.size_ = x_size * d_size
        self.par_storage_ = None



@of("rpucuda.rpu_simple_device.SimpleRPUDeviceMetaParameter")
class SimpleRPUDeviceMetaParameter:
    reset_std = 0
    def getName(self):
        return 'SimpleRPUDevice'

    def createDevice(self, x_size, d_size, rng):
        return make_SimpleRPUDevice(x_size, d_size, self, rng)

    def clone(self):
        return make_SimpleRPUDeviceMetaParameter(self)

    def implements(self):
        return DeviceUpdateType.FloatingPoint


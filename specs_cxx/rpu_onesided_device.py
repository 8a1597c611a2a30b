@of("rpucuda.rpu_onesided_device.swap__16")
def swap__16(a, b):
    swap__35(a, b)
    a.g_plus_, b.g_plus_ = (b.g_plus_, a.g_plus_)
    a.g_minus_, b.g_minus_ = (b.g_minus_, a.g_minus_)
    a.a_indices_, b.a_indices_ = (b.a_indices_, a.a_indices_)
    a.b_indices_, b.b_indices_ = (b.b_indices_, a.b_indices_)
    a.refresh_counter_, b.refresh_counter_ = (b.refresh_counter_, a.refresh_counter_)
    a.refresh_fb_pass_, b.refresh_fb_pass_ = (b.refresh_fb_pass_, a.refresh_fb_pass_)
    a.refresh_pwu_, b.refresh_pwu_ = (b.refresh_pwu_, a.refresh_pwu_)
    a.refresh_vecs_, b.refresh_vecs_ = (b.refresh_vecs_, a.refresh_vecs_)


@of("rpucuda.rpu_onesided_device.OneSidedRPUDevice")
class OneSidedRPUDevice:
    refresh_fb_pass_ = None
    refresh_pwu_ = None
    g_plus_ = 1
    g_minus_ = 0
    refresh_counter_ = 0
    def ctor__1(self):
        pass

    def ctor__2(self, x_sz, d_sz):
        VectorRPUDevice.ctor__2(self, x_sz, d_sz)
        self.a_indices_.resize(x_sz)
        self.b_indices_.resize(x_sz)

    def ctor__3(self, x_sz, d_sz, par, rng):
        self.ctor__2(x_sz, d_sz)
        self.populate__12(par, rng)

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def clone(self):
        return make_OneSidedRPUDevice(self)

    def resetCols__2(self, weights, start_col, n_cols, reset_prob, rng):
        VectorRPUDevice.resetCols__2(self, weights, start_col, n_cols, reset_prob, rng)

    def onSetWeights(self, weights):
        self.resetCounters(True)
        w = weights[0]
        for i in range(self.size_):
            self.weights_vec_[self.g_plus_][0][i] = max(w[i], 0)
            self.weights_vec_[self.g_minus_][0][i] = -w[i] if w[i] < 0 else 0
        self.rpu_device_vec_[self.g_plus_].onSetWeights(self.weights_vec_[self.g_plus_])
        self.rpu_device_vec_[self.g_minus_].onSetWeights(self.weights_vec_[self.g_minus_])
        self.reduceToWeights(weights)
        return True

    def invert(self):
        self.g_plus_, self.g_minus_ = (self.g_minus_, self.g_plus_)
        self.reduce_weightening_[self.g_plus_] = 1
        self.reduce_weightening_[self.g_minus_] = -1

    def getRefreshVecs(self):
        return self.refresh_vecs_

    def finishUpdateCycle(self, weights, up, current_lr, m_batch_info):
        VectorRPUDevice.finishUpdateCycle(self, weights, up, current_lr, m_batch_info)
        par = self.getPar()
        if par.refresh_every > 0:
            refresh_every = par.refresh_every
            if par.units_in_mbatch:
                refresh_every *= m_batch_info
            refresh_count = 0
            if self.current_update_idx_ % refresh_every == 0:
                refresh_count += self.refreshWeights()
            if refresh_count > 0:
                self.reduceToWeights(weights)
            self.refresh_counter_ += refresh_count

    def dumpExtra(self, extra, prefix):
        VectorRPUDevice.dumpExtra(self, extra, prefix)
        state = make_state_t()
        insert__4(state, 'g_plus', self.g_plus_)
        insert__4(state, 'g_minus', self.g_minus_)
        insert(state, 'refresh_counter', self.refresh_counter_)
        self.refresh_fb_pass_.dumpExtra(state, 'refresh_fb_pass')
        self.refresh_pwu_.dumpExtra(state, 'refresh_pwu')
        insertWithPrefix(extra, state, prefix)

    def loadExtra(self, extra, prefix, strict):
        VectorRPUDevice.loadExtra(self, extra, prefix, strict)
        state = selectWithPrefix(extra, prefix)
        self.g_plus_ = load__4(state, 'g_plus', self.g_plus_, strict)
        self.g_minus_ = load__4(state, 'g_minus', self.g_minus_, strict)
        self.refresh_counter_ = load(state, 'refresh_counter', self.refresh_counter_, strict)
        self.refresh_fb_pass_.loadExtra(state, 'refresh_fb_pass', strict)
        self.refresh_pwu_.loadExtra(state, 'refresh_pwu', strict)

    def setHiddenUpdateIdx(self, idx):
        pass

    def doSparseUpdate(self, weights, d_index, x_signed_indices, x_count, d_sign, rng):
        a_count = 0
        b_count = 0
        for jj in range(x_count):
            j_signed = x_signed_indices[jj]
            sign = -d_sign if j_signed < 0 else d_sign
            if sign > 0:
                t__1 = a_count
                a_count += 1
                self.a_indices_[t__1] = j_signed if j_signed > 0 else -j_signed
            else:
                t__2 = b_count
                b_count += 1
                self.b_indices_[t__2] = j_signed if j_signed > 0 else -j_signed
        if a_count > 0:
            self.rpu_device_vec_[self.g_minus_].doSparseUpdate(self.weights_vec_[self.g_minus_], d_index, self.a_indices_, a_count, -1, rng)
        if b_count > 0:
            self.rpu_device_vec_[self.g_plus_].doSparseUpdate(self.weights_vec_[self.g_plus_], d_index, self.b_indices_, b_count, -1, rng)
        for jj in range(x_count):
            j_signed = x_signed_indices[jj]
            j = -j_signed - 1 if j_signed < 0 else j_signed - 1
            weights[d_index][j] = self.weights_vec_[self.g_plus_][d_index][j] - self.weights_vec_[self.g_minus_][d_index][j]

    def doDenseUpdate(self, weights, coincidences, rng):
        self.coincidences_p_.resize(self.size_)
        self.coincidences_m_.resize(self.size_)
        for i in range(self.size_):
            c = coincidences[i]
            self.coincidences_p_[i] = min(c, 0)
            self.coincidences_m_[i] = -c if c > 0 else 0
        self.rpu_device_vec_[self.g_plus_].doDenseUpdate(self.weights_vec_[self.g_plus_], self.coincidences_p_, rng)
        self.rpu_device_vec_[self.g_minus_].doDenseUpdate(self.weights_vec_[self.g_minus_], self.coincidences_m_, rng)
        self.reduceToWeights(weights)

    def getGIndices(self, gplus, gminus):
        gplus = self.g_plus_
        gminus = self.g_minus_
        return (gplus, gminus)

    def getPosWeights(self):
        return self.getWeightVec()[self.g_plus_]

    def getNegWeights(self):
        return self.getWeightVec()[self.g_minus_]

    def getRefreshCount(self):
        return self.refresh_counter_

    def getRefreshFBPass(self):
        return self.refresh_fb_pass_

    def populate__12(self, p, rng):
        VectorRPUDevice.populate__21(self, p, rng)
        if len(self.rpu_device_vec_) != 2:
            raise RuntimeError()
        par = self.getPar()
        if par.copy_inverted:
            self.rpu_device_vec_[1].copyInvertDeviceParameter(self.rpu_device_vec_)
        self.g_plus_ = 1
        self.g_minus_ = 0
        self.reduce_weightening_.resize(2)
        self.reduce_weightening_[self.g_plus_] = 1
        self.reduce_weightening_[self.g_minus_] = -1
        self.setRefreshVecs()
        shared_rng = make_shared_shared_ptr__NonArray_RNG(0)
        self.refresh_fb_pass_ = make_unique_unique_ptr_ForwardBackwardPassIOManaged(self.x_size_, self.d_size_, shared_rng)
        self.refresh_fb_pass_.populateFBParameter(par.refresh_io, par.refresh_io)
        self.refresh_pwu_ = make_unique_unique_ptr_PulsedRPUWeightUpdater(self.x_size_, self.d_size_, shared_rng)
        self.refresh_pwu_.setUpPar(par.refresh_up)

    def resetCounters(self, force):
        self.refresh_counter_ = 0
        return VectorRPUDevice.resetCounters(self, force)

    def refreshCriterion(self, wp, wm, w_max, w_min, upper_thres, lower_thres):
        return (wp / w_max > upper_thres and wm / w_min > lower_thres if wp > wm else wp / w_max > lower_thres and wm / w_min > upper_thres, wp, wm, w_max, w_min, upper_thres, lower_thres)

    def isInverted(self):
        return self.g_plus_ == 0

    def refreshWeights(self):
        par = self.getPar()
        if len(self.refresh_p_tmp_) < self.d_size_:
            self.refresh_p_tmp_.resize(self.d_size_)
            self.refresh_m_tmp_.resize(self.d_size_)
            self.refresh_p_vec_.resize(self.d_size_)
            self.refresh_m_vec_.resize(self.d_size_)
        w_max = abs(self.rpu_device_vec_[self.g_plus_].getPar().w_max)
        w_min = abs(self.rpu_device_vec_[self.g_minus_].getPar().w_max)
        upper_thres = par.refresh_upper_thres
        lower_thres = par.refresh_lower_thres
        weights_p = self.weights_vec_[self.g_plus_]
        weights_m = self.weights_vec_[self.g_minus_]
        refresh_indices = make_vector_int()
        refresh_counter = 0
        for j_col in range(self.x_size_):
            x = ptr_add(self.refresh_vecs_, j_col * self.x_size_)
            self.refresh_fb_pass_.forwardVector__2(weights_p, x, 1, self.refresh_p_tmp_, 1, 1, False)
            self.refresh_fb_pass_.forwardVector__2(weights_m, x, 1, self.refresh_m_tmp_, 1, 1, False)
            refresh_p_counter = 0
            refresh_m_counter = 0
            refresh_indices.resize(0)
            for i in range(self.d_size_):
                wp = self.refresh_p_tmp_[i]
                wm = self.refresh_m_tmp_[i]
                self.refresh_p_vec_[i] = 0
                self.refresh_m_vec_[i] = 0
                t__1, wp, wm, w_max, w_min, upper_thres, lower_thres = self.refreshCriterion(wp, wm, w_max, w_min, upper_thres, lower_thres)
                if t__1:
                    if wp > wm:
                        self.refresh_p_vec_[i] = wp - wm
                        refresh_p_counter += 1
                    else:
                        self.refresh_m_vec_[i] = wm - wp
                        refresh_m_counter += 1
                    refresh_indices.push_back(i * self.x_size_ + j_col)
            ptr_add(self.rpu_device_vec_, self.g_plus_).resetAtIndices(weights_p, copy(refresh_indices), self.rw_rng_)
            ptr_add(self.rpu_device_vec_, self.g_minus_).resetAtIndices(weights_m, copy(refresh_indices), self.rw_rng_)
            if refresh_p_counter > 0:
                self.refresh_pwu_.updateVectorWithDevice(weights_p, x, 1, self.refresh_p_vec_, 1, -1, 1, ptr_add(self.rpu_device_vec_, self.g_plus_))
            if refresh_m_counter > 0:
                self.refresh_pwu_.updateVectorWithDevice(weights_m, x, 1, self.refresh_m_vec_, 1, -1, 1, ptr_add(self.rpu_device_vec_, self.g_minus_))
            refresh_counter += refresh_p_counter + refresh_m_counter
        return refresh_counter

    def setRefreshVecs(self):
        self.refresh_vecs_.resize(self.x_size_ * self.x_size_)
        for t__1 in range(len(self.refresh_vecs_)):
            self.refresh_vecs_[t__1] = 0
        for i in range(0, len(self.refresh_vecs_), self.x_size_ + 1):
            self.refresh_vecs_[i] = 1



@of("rpucuda.rpu_onesided_device.OneSidedRPUDeviceMetaParameter")
class OneSidedRPUDeviceMetaParameter:
    refresh_every = 0
    units_in_mbatch = True
    refresh_upper_thres = 0.75
    refresh_lower_thres = 0.25
    copy_inverted = False
    def ctor__1(self):
        pass

    def ctor__2(self, dp, n_devices):
        VectorRPUDeviceMetaParameter.ctor__2(self, dp, n_devices)
        if n_devices != 2:
            raise RuntimeError()

    def implements(self):
        return DeviceUpdateType.OneSided

    def getName(self):
        return ss

    def appendVecPar(self, par):
        dp = par.clone()
        if dp is None:
            return False
        if len(self.vec_par) > 1:
            return False
        if len(self.vec_par) == 1 and self.vec_par[0] != dp[0]:
            return False
        self.vec_par.push_back(make_value_type(dp))
        return True

    def initialize__1(self):
        AbstractRPUDeviceMetaParameter.initialize__1(self)
        if not len(self.vec_par) != 0:
            raise RuntimeError()
        self.vec_par.resize(1)
        self.appendVecPar(self.vec_par[0])
        self.update_policy = VectorDeviceUpdatePolicy.All
        self.first_update_idx = 0
        self.gamma_vec.clear()

    def createDevice(self, x_size, d_size, rng):
        return make_OneSidedRPUDevice(x_size, d_size, self, rng)

    def clone(self):
        return make_OneSidedRPUDeviceMetaParameter(self)


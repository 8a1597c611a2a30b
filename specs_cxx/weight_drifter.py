@of("rpucuda.weight_drifter.WeightDrifter")
class WeightDrifter:
    size_ = None
    active_ = None
    current_t_ = None
    def ctor__2(self, size):
        self.size_ = size
        self.active_ = False
        self.current_t_ = 0

    def ctor__3(self, size, par):
        self.ctor__2(size)
        self.par_ = par
        self.par_.setSimpleDrift()

    def ctor__4(self, size, par, rng):
        self.ctor__2(size)
        self.populate__4(par, rng)

    def ctor__1(self):
        pass

    def populate__4(self, par, rng):
        self.par_ = par
        if not self.par_.isSimpleDrift():
            self.nu_.resize(self.size_)
            for i in range(self.size_):
                self.nu_[i] = self.par_.nu + self.par_.nu_dtod * self.par_.nu * rng.sampleGauss()

    def apply__3(self, weights, time_since_last_call, rng):
        if len(self.previous_weights_) != self.size_:
            self.initialize__2(weights)
        if not self.par_.isSimpleDrift() and len(self.nu_) == 0:
            raise RuntimeError()
        self.current_t_ += time_since_last_call / self.par_.t0
        reset_tol = self.par_.reset_tol
        simple = self.par_.isSimpleDrift()
        a = self.par_.g_offset * self.par_.wg_ratio - self.par_.w_offset
        if abs(a) < reset_tol:
            a = 0
        w_noise_std = self.par_.w_read_std
        nu_std = self.par_.nu_std
        nu0 = self.par_.nu
        for i in range(self.size_):
            w = weights[i]
            if abs(self.previous_weights_[i] - w) > reset_tol:
                self.t_[i] = self.current_t_
                self.w0_[i] = w
            else:
                w0 = self.w0_[i]
                nu = nu0 if simple else self.nu_[i]
                nu = nu if nu_std <= 0 else nu + nu_std * nu * rng.sampleGauss()
                nu = nu if not self.par_.nu_k != 0 else nu - self.par_.nu_k * m_log((w - self.par_.w_offset) / self.par_.wg_ratio + self.par_.g_offset) + self.par_.nu_k * self.par_.logG0
                delta_t = max(self.current_t_ - self.t_[i], 1)
                nu_scale = m_pow(delta_t, -nu)
                w = w0 * nu_scale
                w = w if not a != 0 else w + a * (nu_scale - 1)
            w += w_noise_std * rng.sampleGauss() if w_noise_std > 0 else 0
            self.previous_weights_[i] = w
            weights[i] = w

    def saturate(self, weights, min_bounds, max_bounds):
        for i in range(self.size_):
            weights[i] = min(max(min_bounds[i], weights[i]), max_bounds[i])
            self.previous_weights_[i] = min(max(min_bounds[i], self.previous_weights_[i]), max_bounds[i])

    def isActive(self):
        return self.active_

    def getNu__1(self):
        return None if len(self.nu_) != self.size_ else self.nu_

    def getNu__2(self, dst):
        copy__2(self.size_, self.nu_, 1, dst, 1)

    def setNu(self, src):
        self.nu_.resize(self.size_)
        copy__2(self.size_, src, 1, self.nu_, 1)

    def getPar(self):
        return self.par_

    def getSize(self):
        return self.size_

    def dumpExtra(self, extra, prefix):
        state = make_state_t()
        insert__1(state, 'active', self.active_)
        insert__3(state, 'current_t', self.current_t_)
        insert__8(state, 'previous_weights', self.previous_weights_)
        insert__8(state, 'w0', self.w0_)
        insert__8(state, 't', self.t_)
        insert__8(state, 'nu', self.nu_)
        insertWithPrefix(extra, state, prefix)

    def loadExtra(self, extra, prefix, strict):
        state = selectWithPrefix(extra, prefix)
        load__8(state, 'previous_weights', self.previous_weights_, strict)
        load__8(state, 'w0', self.w0_, strict)
        load__8(state, 't', self.t_, strict)
        load__8(state, 'nu', self.nu_, strict)
        self.current_t_ = load__3(state, 'current_t', self.current_t_, strict)
        self.active_ = load__1(state, 'active', self.active_, strict)

    def initialize__2(self, weights):
        self.t_.clear()
        self.t_.resize(self.size_)
        self.w0_.resize(self.size_)
        copy__2(self.size_, weights, 1, self.w0_, 1)
        self.previous_weights_.resize(self.size_)
        copy__2(self.size_, weights, 1, self.previous_weights_, 1)
        self.active_ = True
        self.current_t_ = 0


@of("rpucuda.weight_modifier.WeightModifier")
class WeightModifier:
    x_size_ = None
    d_size_ = None
    size_ = None
    enable_during_test_ = None
    rw_rng_ = None
    def enableDuringTest(self):
        return self.enable_during_test_

    def ctor__2(self, x_size, d_size):
        self.x_size_ = x_size
        self.d_size_ = d_size
        self.size_ = d_size * x_size

    def ctor__1(self):
        pass

    def apply__2(self, new_weights, weights, wmpar):
        if wmpar.type != WeightModifierType.Copy:
            if wmpar.per_batch_sample:
                raise RuntimeError()
        if new_weights != weights:
            copy__2(self.size_, weights, 1, new_weights, 1)
        if wmpar.copy_last_column:
            self.saved_bias_.resize(self.d_size_)
            for j in range(self.d_size_):
                self.saved_bias_[j] = weights[(j + 1) * self.x_size_ - 1]
        self.enable_during_test_ = wmpar.enable_during_test
        amax = wmpar.assumed_wmax
        if wmpar.rel_to_actual_wmax and wmpar.type != WeightModifierType.Copy:
            amax = 0
            for i in range(self.size_):
                if wmpar.copy_last_column and i % self.x_size_ == self.x_size_ - 1:
                    continue
                a = abs(new_weights[i])
                amax = max(a, amax)
            amax = amax if amax > 0 else 1
        if wmpar.type == WeightModifierType.Copy:
            if new_weights == weights:
                raise RuntimeError()
        elif wmpar.type == WeightModifierType.Discretize:
            res = wmpar.res
            if res > 0:
                sto_round = wmpar.sto_round
                for i in range(self.size_):
                    w = new_weights[i]
                    new_weights[i] = amax * getDiscretizedValueRound(w / amax, res, sto_round, self.rw_rng_)
        elif wmpar.type == WeightModifierType.MultNormal:
            if wmpar.std_dev > 0:
                std = wmpar.std_dev * amax
                for i in range(self.size_):
                    w = new_weights[i]
                    new_weights[i] += w * std * self.rw_rng_.sampleGauss()
        elif wmpar.type == WeightModifierType.AddNormal:
            if wmpar.std_dev > 0:
                std = wmpar.std_dev * amax
                for i in range(self.size_):
                    new_weights[i] += std * self.rw_rng_.sampleGauss()
        elif wmpar.type == WeightModifierType.Poly:
            if wmpar.std_dev > 0 and len(wmpar.coeffs) > 0:
                std = wmpar.std_dev
                for i in range(self.size_):
                    aw = abs(new_weights[i]) / amax
                    paw = 1
                    sig = wmpar.coeffs[0]
                    for j in range(1, len(wmpar.coeffs)):
                        paw *= aw
                        sig += wmpar.coeffs[j] * paw
                    sig *= std
                    new_weights[i] += amax * sig * self.rw_rng_.sampleGauss()
        elif wmpar.type == WeightModifierType.ProgNoise:
            if wmpar.std_dev > 0 and len(wmpar.coeffs) > 0:
                std = wmpar.std_dev / wmpar.g_max
                for i in range(self.size_):
                    aw = abs(new_weights[i]) / amax
                    paw = 1
                    sig = wmpar.coeffs[0]
                    for j in range(1, len(wmpar.coeffs)):
                        paw *= aw
                        sig += wmpar.coeffs[j] * paw
                    sig *= std
                    w = new_weights[i]
                    if w < 0:
                        new_weights[i] = -abs(w + amax * sig * self.rw_rng_.sampleGauss())
                    else:
                        new_weights[i] = abs(w + amax * sig * self.rw_rng_.sampleGauss())
        elif wmpar.type == WeightModifierType.DoReFa:
            res = wmpar.res
            if res > 0:
                sto_round = wmpar.sto_round
                scale = abs(wmpar.dorefa_clip / m_tanh(amax))
                for i in range(self.size_):
                    w = m_tanh(new_weights[i]) * scale
                    new_weights[i] = getDiscretizedValueRound(w, res, sto_round, self.rw_rng_)
        elif wmpar.type == WeightModifierType.DiscretizeAddNormal:
            res = wmpar.res
            std = wmpar.std_dev * amax
            if res > 0 or std > 0:
                sto_round = wmpar.sto_round
                for i in range(self.size_):
                    w = new_weights[i]
                    w = amax * getDiscretizedValueRound(w / amax, res, sto_round, self.rw_rng_)
                    new_weights[i] = w + std * self.rw_rng_.sampleGauss()
        elif wmpar.type == WeightModifierType.DropConnect:
            pass
        else:
            raise RuntimeError()
        if wmpar.pdrop > 0:
            self.dropConnections(new_weights, wmpar.pdrop)
        if wmpar.copy_last_column:
            for j in range(self.d_size_):
                new_weights[(j + 1) * self.x_size_ - 1] = self.saved_bias_[j]

    def dumpExtra(self, extra, prefix):
        state = make_state_t()
        insert__8(state, 'saved_bias', self.saved_bias_)
        insert__1(state, 'enable_during_test', self.enable_during_test_)
        insertWithPrefix(extra, state, prefix)

    def loadExtra(self, extra, prefix, strict):
        state = selectWithPrefix(extra, prefix)
        load__8(state, 'saved_bias', self.saved_bias_, strict)
        self.enable_during_test_ = load__1(state, 'enable_during_test', self.enable_during_test_, strict)

    def dropConnections(self, weights, prob):
        for i in range(self.size_):
            if self.rw_rng_.sampleUniform__1() < prob:
                weights[i] = 0



@of("rpucuda.weight_modifier.WeightModifierParameter")
class WeightModifierParameter:
    std_dev = None
    per_batch_sample = None
    res = None
    sto_round = None
    dorefa_clip = None
    pdrop = None
    enable_during_test = None
    copy_last_column = None
    rel_to_actual_wmax = None
    assumed_wmax = None
    g_max = None
    pcm_zero_thres = None
    pcm_t_inference = None
    pcm_prob_at_reset = None
    pcm_prob_at_gmax = None
    pcm_prob_at_random = None
    pcm_t0 = None
    type = None
    coeffs = None

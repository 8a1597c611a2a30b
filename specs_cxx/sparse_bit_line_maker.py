@of("rpucuda.sparse_bit_line_maker.generateCounts")
def generateCounts(counts, indices, v, v_inc, v_size, P, rng, BL, res, sto_round, noz):
    for k in range(BL):
        counts[k] = 0
    j_v = 0
    for j in range(v_size):
        v_value = v[j_v]
        j_v += v_inc
        PP = getDiscretizedValue(abs(v_value) * P, res, sto_round, rng[0])
        if PP == 0:
            noz += 1
            continue
        jplus1_signed = j + 1 if v_value > 0 else -(j + 1)
        for k in range(BL):
            if PP > rng.sampleUniform__1():
                t__1 = counts[k]
                counts[k] += 1
                indices[k][t__1] = jplus1_signed
    return noz


@of("rpucuda.sparse_bit_line_maker.generateCountsPN")
def generateCountsPN(counts_p, counts_n, indices_p, indices_n, v, v_inc, v_size, P, rng, BL, res, sto_round, noz):
    for k in range(BL):
        counts_p[k] = 0
        counts_n[k] = 0
    j_v = 0
    for j in range(v_size):
        v_value = v[j_v]
        j_v += v_inc
        PP = getDiscretizedValue(abs(v_value) * P, res, sto_round, rng[0])
        if PP == 0:
            noz += 1
            continue
        jplus1_signed = j + 1 if v_value > 0 else -(j + 1)
        if v_value > 0:
            for k in range(BL):
                if PP > rng.sampleUniform__1():
                    t__1 = counts_p[k]
                    counts_p[k] += 1
                    indices_p[k][t__1] = jplus1_signed
        else:
            for k in range(BL):
                if PP > rng.sampleUniform__1():
                    t__2 = counts_n[k]
                    counts_n[k] += 1
                    indices_n[k][t__2] = jplus1_signed
    return noz


@of("rpucuda.sparse_bit_line_maker.swap__33")
def swap__33(a, b):
    a.x_size_, b.x_size_ = (b.x_size_, a.x_size_)
    a.d_size_, b.d_size_ = (b.d_size_, a.d_size_)
    a.max_BL_, b.max_BL_ = (b.max_BL_, a.max_BL_)
    a.n_indices_used_, b.n_indices_used_ = (b.n_indices_used_, a.n_indices_used_)
    a.d_indices_, b.d_indices_ = (b.d_indices_, a.d_indices_)
    a.x_indices_p_, b.x_indices_p_ = (b.x_indices_p_, a.x_indices_p_)
    a.x_indices_n_, b.x_indices_n_ = (b.x_indices_n_, a.x_indices_n_)
    a.d_counts_, b.d_counts_ = (b.d_counts_, a.d_counts_)
    a.x_counts_p_, b.x_counts_p_ = (b.x_counts_p_, a.x_counts_p_)
    a.x_counts_n_, b.x_counts_n_ = (b.x_counts_n_, a.x_counts_n_)


@of("rpucuda.sparse_bit_line_maker.SparseBitLineMaker")
class SparseBitLineMaker:
    x_size_ = None
    d_size_ = None
    max_BL_ = None
    n_indices_used_ = None
    d_indices_ = None
    x_indices_p_ = None
    x_indices_n_ = None
    d_counts_ = None
    x_counts_p_ = None
    x_counts_n_ = None
    def dumpExtra(self, extra, prefix):
        pass

    def loadExtra(self, extra, prefix, strict):
        pass

    def ctor__2(self, x_size, d_size):
        self.x_size_ = x_size
        self.d_size_ = d_size
        self.max_BL_ = 0

    def ctor__1(self):
        pass

    def makeCounts(self, x_in, x_inc, x_noz, d_in, d_inc, d_noz, rng, lr, dw_min, up):
        A = 0
        B = 0
        BL = 0
        if up.update_bl_management or up.update_management:
            x_abs_max = Find_Absolute_Max(x_in, self.x_size_, x_inc)
            d_abs_max = Find_Absolute_Max(d_in, self.d_size_, d_inc)
            BL, A, B = up.performUpdateManagement(BL, A, B, up.desired_BL, x_abs_max, d_abs_max, lr, dw_min)
        else:
            BL, A, B = up.calculateBlAB(BL, A, B, lr, dw_min)
        if BL == 0:
            return (0, x_noz, d_noz)
        if max(BL, up.desired_BL) > self.max_BL_:
            self.initialize__4(self.x_size_, self.d_size_, max(BL, up.desired_BL))
        if up.pulse_type == PulseType.Stochastic:
            x_noz = generateCountsPN(self.x_counts_p_, self.x_counts_n_, self.x_indices_p_, self.x_indices_n_, x_in, x_inc, self.x_size_, B, rng, BL, up.res, up.sto_round, x_noz)
            d_noz = generateCounts(self.d_counts_, self.d_indices_, d_in, d_inc, self.d_size_, A, rng, BL, up.res, up.sto_round, d_noz)
            self.n_indices_used_ = True
        elif up.pulse_type == PulseType.StochasticCompressed:
            x_noz = generateCounts(self.x_counts_p_, self.x_indices_p_, x_in, x_inc, self.x_size_, B, rng, BL, up.res, up.sto_round, x_noz)
            d_noz = generateCounts(self.d_counts_, self.d_indices_, d_in, d_inc, self.d_size_, A, rng, BL, up.res, up.sto_round, d_noz)
            self.n_indices_used_ = False
        else:
            raise RuntimeError()
        return (BL, x_noz, d_noz)

    def getCountsAndIndices(self, x_counts_p, x_counts_n, d_counts, x_indices_p, x_indices_n, d_indices):
        if not self.max_BL_ != 0:
            raise RuntimeError()
        x_counts_p = self.x_counts_p_
        x_counts_n = self.x_counts_n_
        d_counts = self.d_counts_
        x_indices_p = self.x_indices_p_
        x_indices_n = self.x_indices_n_
        d_indices = self.d_indices_
        return (self.n_indices_used_, x_counts_p, x_counts_n, d_counts, x_indices_p, x_indices_n, d_indices)

    def printCounts(self, BL):
        if self.max_BL_ < BL:
            raise RuntimeError()
        for k in range(BL):
            for i in range(self.x_counts_p_[k]):
                pass
        for k in range(BL):
            for i in range(self.d_counts_[k]):
                pass
        if self.n_indices_used_:
            for k in range(BL):
                for i in range(self.x_counts_n_[k]):
                    pass

    def supports(self, pulse_type):
        return PulseType.StochasticCompressed == pulse_type or PulseType.Stochastic == pulse_type

    def freeContainers(self):
        if self.max_BL_ > 0:
            Array_2D_Free__2(self.x_indices_p_)
            Array_2D_Free__2(self.x_indices_n_)
            Array_2D_Free__2(self.d_indices_)
            self.d_counts_ = None
            self.x_counts_p_ = None
            self.x_counts_n_ = None
            self.max_BL_ = 0

    def allocateContainers__2(self, max_BL):
        self.freeContainers()
        self.max_BL_ = max_BL
        self.x_indices_p_ = Array_2D_Get(self.max_BL_, self.x_size_)
        self.x_indices_n_ = Array_2D_Get(self.max_BL_, self.x_size_)
        self.d_indices_ = Array_2D_Get(self.max_BL_, self.d_size_)
        self.x_counts_p_ = make_int(self.max_BL_)
        self.x_counts_n_ = make_int(self.max_BL_)
        self.d_counts_ = make_int(self.max_BL_)

    def initialize__4(self, x_size, d_size, max_BL):
        self.x_size_ = x_size
        self.d_size_ = d_size
        self.allocateContainers__2(max_BL)


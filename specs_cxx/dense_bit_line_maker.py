@of("rpucuda.dense_bit_line_maker.swap__5")
def swap__5(a, b):
    a.x_size_, b.x_size_ = (b.x_size_, a.x_size_)
    a.d_size_, b.d_size_ = (b.d_size_, a.d_size_)
    a.containers_allocated_, b.containers_allocated_ = (b.containers_allocated_, a.containers_allocated_)
    a.d_counts_, b.d_counts_ = (b.d_counts_, a.d_counts_)
    a.x_counts_, b.x_counts_ = (b.x_counts_, a.x_counts_)
    a.d_values_, b.d_values_ = (b.d_values_, a.d_values_)
    a.x_values_, b.x_values_ = (b.x_values_, a.x_values_)
    a.coincidences_, b.coincidences_ = (b.coincidences_, a.coincidences_)
    a.rw_rng_, b.rw_rng_ = (b.rw_rng_, a.rw_rng_)


@of("rpucuda.dense_bit_line_maker.DenseBitLineMaker")
class DenseBitLineMaker:
    x_size_ = 0
    d_size_ = 0
    containers_allocated_ = False
    rw_rng_ = None
    coincidences_ = None
    d_counts_ = None
    x_counts_ = None
    d_values_ = None
    x_values_ = None
    def ctor__2(self, x_size, d_size):
        self.x_size_ = x_size
        self.d_size_ = d_size
        self.containers_allocated_ = False

    def ctor__1(self):
        pass

    def makeCoincidences(self, x_in, x_inc, x_noz, d_in, d_inc, d_noz, rng, lr, dw_min, up):
        A = 0
        B = 0
        BL = 0
        if up.update_bl_management or up.update_management:
            x_abs_max = Find_Absolute_Max(x_in, self.x_size_, x_inc)
            d_abs_max = Find_Absolute_Max(d_in, self.d_size_, d_inc)
            BL, A, B = up.performUpdateManagement(BL, A, B, up.desired_BL, x_abs_max, d_abs_max, abs(lr), dw_min)
        else:
            BL, A, B = up.calculateBlAB(BL, A, B, abs(lr), dw_min)
        if not self.containers_allocated_:
            self.initialize__3(self.x_size_, self.d_size_)
        if up.pulse_type == PulseType.MeanCount:
            x_noz = self.generateCountsMean(self.x_counts_, x_in, x_inc, self.x_size_, x_noz, B, rng, BL, up.res, up.sto_round, lr)
            d_noz = self.generateCountsMean(self.d_counts_, d_in, d_inc, self.d_size_, d_noz, A, rng, BL, up.res, up.sto_round, abs(lr))
            self.generateCoincidences(self.coincidences_, self.x_counts_, self.x_size_, self.d_counts_, self.d_size_, BL)
        elif up.pulse_type == PulseType.DeterministicImplicit:
            x_noz = self.generateDetImplicit(self.x_values_, x_in, x_inc, self.x_size_, x_noz, B, rng, BL, up.x_res_implicit, up.sto_round, lr)
            d_noz = self.generateDetImplicit(self.d_values_, d_in, d_inc, self.d_size_, d_noz, A, rng, BL, up.d_res_implicit, up.sto_round, abs(lr))
            self.generateCoincidencesDetI(self.coincidences_, self.x_values_, self.x_size_, self.d_values_, self.d_size_, BL)
        else:
            raise RuntimeError()
        return (self.coincidences_, x_noz, d_noz)

    def printCounts(self, max_n):
        if not self.containers_allocated_:
            raise RuntimeError()
        for k in range(min(self.x_size_, max_n)):
            pass
        for k in range(min(self.d_size_, max_n)):
            pass

    def supports(self, pulse_type):
        return PulseType.MeanCount == pulse_type or PulseType.DeterministicImplicit == pulse_type

    def dumpExtra(self, extra, prefix):
        pass

    def loadExtra(self, extra, prefix, strict):
        pass

    def freeContainers(self):
        if self.containers_allocated_:
            self.d_counts_ = None
            self.x_counts_ = None
            self.d_values_ = None
            self.x_values_ = None
            self.coincidences_ = None
            self.rw_rng_ = None
            self.containers_allocated_ = False

    def allocateContainers__1(self):
        self.freeContainers()
        self.rw_rng_ = make_unique_unique_ptr_RealWorldRNG(0)
        self.x_counts_ = make_int(self.x_size_)
        self.d_counts_ = make_int(self.d_size_)
        self.x_values_ = make_float(self.x_size_)
        self.d_values_ = make_float(self.d_size_)
        self.coincidences_ = make_int(self.d_size_ * self.x_size_)
        self.containers_allocated_ = True

    def initialize__3(self, x_size, d_size):
        if x_size != self.x_size_ or d_size != self.d_size_ or (not self.containers_allocated_):
            self.x_size_ = x_size
            self.d_size_ = d_size
            self.allocateContainers__1()

    def generateCoincidences(self, coincidences, x_counts, x_size, d_counts, d_size, BL):
        bl = BL
        idx = 0
        for i in range(d_size):
            dc = d_counts[i]
            if dc != 0:
                dc /= bl
                for j in range(x_size):
                    t__1 = idx
                    idx += 1
                    coincidences[t__1] = to_int(to_int(rintf(dc * x_counts[j])))
            else:
                for j in range(x_size):
                    t__2 = idx
                    idx += 1
                    coincidences[t__2] = 0

    def generateCoincidencesDetI(self, coincidences, x_values, x_size, d_values, d_size, BL):
        idx = 0
        for i in range(d_size):
            dc = d_values[i]
            if dc != 0:
                dc *= BL
                for j in range(x_size):
                    t__1 = idx
                    idx += 1
                    coincidences[t__1] = to_int(to_int(rintf(dc * x_values[j])))
            else:
                for j in range(x_size):
                    t__2 = idx
                    idx += 1
                    coincidences[t__2] = 0

    def generateCountsMean(self, counts, v, v_inc, v_size, v_noz, p, rng, BL, res, sto_round, lr):
        j_v = 0
        for j in range(v_size):
            v_value = -v[j_v] if lr < 0 else v[j_v]
            j_v += v_inc
            pp = getDiscretizedValue(abs(v_value) * p, res, sto_round, rng[0])
            if pp == 0:
                counts[j] = 0
                v_noz += 1
                continue
            ntimes = max(min(to_int(to_int(rintf(BL * pp))), BL), 0)
            counts[j] = ntimes if v_value >= 0 else -ntimes
        return v_noz

    def generateDetImplicit(self, pcounts, v, v_inc, v_size, v_noz, p, rng, BL, res, sto_round, lr):
        j_v = 0
        for j in range(v_size):
            v_value = -v[j_v] if lr < 0 else v[j_v]
            j_v += v_inc
            pp = getDiscretizedValue(abs(v_value) * p, res, sto_round, rng[0])
            if pp == 0:
                v_noz += 1
            pp = max(min(pp, 1), 0)
            pcounts[j] = pp if v_value >= 0 else -pp
        return v_noz


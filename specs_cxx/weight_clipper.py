@of("rpucuda.weight_clipper.WeightClipParameter")
class WeightClipParameter:
    type = WeightClipType.None_
    fixed_value = -1
    sigma = 2.5
    def getTypeName(self):
        if self.type == WeightClipType.None_:
            return 'None'
        elif self.type == WeightClipType.FixedValue:
            return 'FixedValue'
        elif self.type == WeightClipType.AverageChannelMax:
            return 'AverageChannelMax'
        elif self.type == WeightClipType.LayerGaussian:
            return 'LayerGaussian'
        else:
            return 'Unknown'



@of("rpucuda.weight_clipper.WeightClipper")
class WeightClipper:
    x_size_ = None
    d_size_ = None
    size_ = None
    def dumpExtra(self, extra, prefix):
        pass

    def loadExtra(self, extra, prefix, strict):
        pass

    def ctor__2(self, x_size, d_size):
        self.x_size_ = x_size
        self.d_size_ = d_size
        self.size_ = d_size * x_size

    def ctor__1(self):
        pass

    def apply__1(self, weights, wclpar):
        clip_value = -1
        if wclpar.type == WeightClipType.FixedValue:
            clip_value = wclpar.fixed_value
        elif wclpar.type == WeightClipType.AverageChannelMax:
            if len(self.amax_values_) < self.d_size_:
                self.amax_values_.resize(self.d_size_)
            for t__1 in range(len(self.amax_values_)):
                self.amax_values_[t__1] = 0
            for i in range(self.size_):
                row_idx = i // self.x_size_
                a = abs(weights[i])
                mv = self.amax_values_[row_idx]
                self.amax_values_[row_idx] = max(a, mv)
            sum_amax = 0
            for i in range(self.d_size_):
                sum_amax += self.amax_values_[i]
            clip_value = abs(sum_amax / self.d_size_)
            if wclpar.fixed_value > 0:
                clip_value = min(clip_value, wclpar.fixed_value)
        elif wclpar.type == WeightClipType.LayerGaussian:
            mean_value = 0
            std_value_v = 0
            for i in range(self.size_):
                mean_value += weights[i]
            mean_value /= self.size_
            s = self.size_ - 1
            for i in range(self.size_):
                m = weights[i] - mean_value
                std_value_v += m * m / s
            std_value_v = m_sqrt(std_value_v)
            clip_value = std_value_v * wclpar.sigma
            if wclpar.fixed_value > 0:
                clip_value = min(clip_value, wclpar.fixed_value)
        elif wclpar.type == WeightClipType.None_:
            clip_value = -1
        else:
            raise RuntimeError()
        if clip_value > 0:
            self.clip(weights, clip_value)

    def clip(self, weights, value):
        for i in range(self.size_):
            weights[i] = min(max(weights[i], -value), value)


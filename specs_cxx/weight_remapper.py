@of("rpucuda.weight_remapper.WeightRemapParameter")
class WeightRemapParameter:
    type = WeightRemapType.None_
    max_scale_range = 0
    max_scale_ref = 0
    row_norm = 1
    remapped_wmax = 1
    clip_if = True
    swa_every = 0
    swa_transfer_every = 0
    swa_start = 0
    def getTypeName(self):
        if self.type == WeightRemapType.None_:
            return 'None'
        elif self.type == WeightRemapType.LayerwiseSymmetric:
            return 'LayerwiseSymmetric'
        elif self.type == WeightRemapType.ChannelwiseNorm:
            return 'ChannelwiseNorm'
        elif self.type == WeightRemapType.ChannelwiseSymmetric:
            return 'ChannelwiseSymmetric'
        elif self.type == WeightRemapType.ChannelwiseExceeded:
            return 'ChannelwiseExceeded'
        elif self.type == WeightRemapType.LayerwiseAsymmetric:
            return 'LayerwiseAsymmetric'
        elif self.type == WeightRemapType.ChannelwiseAsymmetric:
            return 'ChannelwiseAsymmetric'
        else:
            return 'Unknown'



@of("rpucuda.weight_remapper.WeightRemapper")
class WeightRemapper:
    x_size_ = None
    d_size_ = None
    size_ = None
    def dumpExtra(self, extra, prefix):
        pass

    def loadExtra(self, extra, prefix, strict):
        pass

    def ctor__2(self, x_size, d_size):
        self.x_size_ = x_size
        self.d_size_ = d_size
        self.size_ = d_size * x_size

    def ctor__1(self):
        pass

    def apply__4(self, weights, current_lr, wrmpar, scales, biases):
        if wrmpar.type == WeightRemapType.LayerwiseSymmetric:
            if not scales is not None:
                raise RuntimeError()
            amax = 0
            for i in range(self.size_):
                a = abs(weights[i])
                amax = max(a, amax)
            amax /= wrmpar.remapped_wmax
            if amax > 0:
                for i in range(self.d_size_):
                    scales[i] *= amax
                for i in range(self.size_):
                    weights[i] /= amax
        elif wrmpar.type == WeightRemapType.ChannelwiseSymmetric:
            if not scales is not None:
                raise RuntimeError()
            if len(self.max_values_) < self.d_size_:
                self.max_values_.resize(self.d_size_)
            for t__1 in range(len(self.max_values_)):
                self.max_values_[t__1] = 0
            for i in range(self.size_):
                row_idx = i // self.x_size_
                a = abs(weights[i])
                mv = self.max_values_[row_idx]
                self.max_values_[row_idx] = max(a, mv)
            if wrmpar.max_scale_range <= 0:
                if wrmpar.remapped_wmax != 1:
                    for i in range(self.d_size_):
                        self.max_values_[i] /= wrmpar.remapped_wmax
                for i in range(self.d_size_):
                    amax = self.max_values_[i]
                    scales[i] *= amax if amax > 0 else 1
                for i in range(self.size_):
                    row_idx = i // self.x_size_
                    amax = self.max_values_[row_idx]
                    weights[i] /= amax if amax > 0 else 1
            else:
                if wrmpar.remapped_wmax != 1:
                    raise RuntimeError()
                if len(self.old_scales_) < self.d_size_:
                    self.old_scales_.resize(self.d_size_)
                min_scale = numeric_limits.max()
                for i in range(self.d_size_):
                    s = scales[i]
                    self.old_scales_[i] = s
                    min_scale = min(s, min_scale)
                min_scale = max(min_scale, 0)
                if min_scale > 0 and wrmpar.max_scale_ref != 0:
                    min_scale = max(min_scale, wrmpar.max_scale_ref)
                for i in range(self.d_size_):
                    amax = self.max_values_[i]
                    new_scale = amax * self.old_scales_[i] if amax > 0 else self.old_scales_[i]
                    if min_scale > 0:
                        new_scale = min_scale * wrmpar.max_scale_range if new_scale / min_scale > wrmpar.max_scale_range else new_scale
                    scales[i] = new_scale
                for i in range(self.size_):
                    row_idx = i // self.x_size_
                    weights[i] = weights[i] * self.old_scales_[row_idx] / scales[row_idx]
        elif wrmpar.type == WeightRemapType.ChannelwiseNorm:
            if not scales is not None:
                raise RuntimeError()
            if wrmpar.row_norm <= 0:
                raise RuntimeError()
            if len(self.norm_values_) < self.d_size_:
                self.norm_values_.resize(self.d_size_)
            for t__2 in range(len(self.norm_values_)):
                self.norm_values_[t__2] = 0
            for i in range(self.size_):
                row_idx = i // self.x_size_
                w = weights[i]
                self.norm_values_[row_idx] += w * w
            for i in range(self.d_size_):
                nm = m_sqrt(self.norm_values_[i])
                nm = nm if nm > 0 else 1
                nm /= wrmpar.row_norm
                nm = max(nm, 1)
                self.norm_values_[i] = nm
                if not wrmpar.clip_if:
                    scales[i] *= nm
            for i in range(self.size_):
                row_idx = i // self.x_size_
                weights[i] /= self.norm_values_[row_idx]
        elif wrmpar.type == WeightRemapType.ChannelwiseAsymmetric:
            if not scales is not None or not biases is not None:
                raise RuntimeError()
            if len(self.max_values_) < self.d_size_:
                self.max_values_.resize(self.d_size_)
            std_fill(self.max_values_.begin(), self.max_values_.end(), numeric_limits.lowest())
            std_fill(self.min_values_.begin(), self.min_values_.end(), numeric_limits.max())
            for i in range(self.size_):
                row_idx = i // self.x_size_
                v = weights[i]
                mxv = self.max_values_[row_idx]
                self.max_values_[row_idx] = max(v, mxv)
                mnv = self.min_values_[row_idx]
                self.min_values_[row_idx] = min(v, mnv)
            for row_idx in range(self.d_size_):
                mx = self.max_values_[row_idx]
                mn = self.min_values_[row_idx]
                b = biases[row_idx]
                s = scales[row_idx]
                half_span = (mx - mn) / 2
                half_span = half_span if half_span > 0 else 1
                new_scale = s * half_span
                new_b = b - new_scale - s * mn
                for j in range(self.x_size_):
                    weights[j + row_idx * self.x_size_] = weights[j + row_idx * self.x_size_] / half_span + 1 + mn / half_span
                scales[row_idx] = new_scale
                biases[row_idx] = new_b
        elif wrmpar.type == WeightRemapType.None_:
            pass
        else:
            raise RuntimeError()

    def applySWA(self, swa_weights, weights, iter_v, wrmpar, current_lr, scales, biases):
        if wrmpar.swa_every <= 0:
            return False
        if iter_v <= wrmpar.swa_start or iter_v % wrmpar.swa_every != 0:
            return False
        n = (iter_v - wrmpar.swa_start) // wrmpar.swa_every - 1
        ratio = n / (n + 1)
        if scales is not None:
            for i in range(self.size_):
                row_idx = i // self.x_size_
                w = weights[i]
                w *= scales[row_idx]
                swa_weights[i] = swa_weights[i] * ratio + w / (n + 1)
        else:
            for i in range(self.size_):
                swa_weights[i] = swa_weights[i] * ratio + weights[0] / (n + 1)
        if wrmpar.swa_transfer_every > 0 and (n + 1) % wrmpar.swa_transfer_every == 0:
            copy__2(self.size_, swa_weights, 1, weights, 1)
            if scales is not None:
                for i in range(self.d_size_):
                    scales[i] = 1
                self.apply__4(weights, current_lr, wrmpar, scales, biases)
            return True
        return False


@of("rpucuda.rpu_forward_backward_pass.computeNoiseManagement")
def computeNoiseManagement(input_v, size, inc, nm_type, auxilary_variable, io):
    if nm_type == NoiseManagementType.None_:
        return (1, auxilary_variable)
    if nm_type == NoiseManagementType.AbsMax:
        max_index = iamax__2(size, input_v, inc)
        amax_input_value = abs(input_v[max_index * inc])
        return (min(amax_input_value, io.nm_thres) if io.nm_thres > 0 else amax_input_value, auxilary_variable)
    elif nm_type == NoiseManagementType.Constant:
        return (io.nm_thres if io.nm_thres > 0 else 1, auxilary_variable)
    elif nm_type == NoiseManagementType.Max:
        max_input_value = max__2(size, input_v, inc)
        return (min(max_input_value, io.nm_thres) if io.nm_thres > 0 else max_input_value, auxilary_variable)
    elif nm_type == NoiseManagementType.AverageAbsMax or nm_type == NoiseManagementType.AverageAbsMaxSingleValue:
        max_index = iamax__2(size, input_v, inc)
        amax_input_value = abs(input_v[max_index * inc])
        if auxilary_variable < 0:
            auxilary_variable = amax_input_value
        else:
            auxilary_variable = auxilary_variable * (1 - io.nm_decay) + io.nm_decay * amax_input_value
        return (auxilary_variable, auxilary_variable)
    elif nm_type == NoiseManagementType.AbsMaxNPSum:
        max_index = iamax__2(size, input_v, inc)
        amax_input_value = abs(input_v[max_index * inc])
        bound = 1 if std_isinf(io.out_bound) else io.out_bound
        psum = 0
        nsum = 0
        j_x = 0
        for j in range(size):
            x = input_v[j_x]
            psum += max(x, 0)
            nsum += min(x, 0)
            j_x += inc
        sum_v = max(psum, -nsum)
        amax_input_value = min(amax_input_value, io.nm_thres) if io.nm_thres > 0 else amax_input_value
        npsum_scale = sum_v * io.nm_assumed_wmax / bound
        if io.inp_res > 0:
            npsum_scale = min(amax_input_value / io.inp_res * io.max_bm_res, npsum_scale)
        return (max(amax_input_value, npsum_scale), auxilary_variable)
    else:
        raise RuntimeError()
    return (None, auxilary_variable)


@of("rpucuda.rpu_forward_backward_pass.finalizeOutputImplStage1")
def finalizeOutputImplStage1(with_asymmetry, out_values, out_size, out_inc, mv_pars, io, rng):
    if io.out_noise > 0 or io.out_noise_std > 0:
        return finalizeOutputImplStage2(True, with_asymmetry, out_values, out_size, out_inc, mv_pars, io, rng)
    else:
        return finalizeOutputImplStage2(True, with_asymmetry, out_values, out_size, out_inc, mv_pars, io, rng)


@of("rpucuda.rpu_forward_backward_pass.finalizeOutputImplStage2")
def finalizeOutputImplStage2(with_noise, with_asymmetry, out_values, out_size, out_inc, mv_pars, io, rng):
    if io.bound_management != BoundManagementType.None_:
        return finalizeOutputImplStage3(with_noise, with_asymmetry, True, out_values, out_size, out_inc, mv_pars, io, rng)
    else:
        return finalizeOutputImplStage3(with_noise, with_asymmetry, False, out_values, out_size, out_inc, mv_pars, io, rng)


@of("rpucuda.rpu_forward_backward_pass.finalizeOutputImplStage3")
def finalizeOutputImplStage3(with_noise, with_asymmetry, with_bm, out_values, out_size, out_inc, mv_pars, io, rng):
    if io.out_sto_round:
        return finalizeOutputImplStage4(with_noise, with_asymmetry, with_bm, True, out_values, out_size, out_inc, mv_pars, io, rng)
    else:
        return finalizeOutputImplStage4(with_noise, with_asymmetry, with_bm, False, out_values, out_size, out_inc, mv_pars, io, rng)


@of("rpucuda.rpu_forward_backward_pass.finalizeOutputImplStage4")
def finalizeOutputImplStage4(with_noise, with_asymmetry, with_bm, sto_round_if, out_values, out_size, out_inc, mv_pars, io, rng):
    if io.hasNLCalibration():
        return finalizeOutputImplStage5(with_noise, with_asymmetry, with_bm, sto_round_if, True, out_values, out_size, out_inc, mv_pars, io, rng)
    else:
        return finalizeOutputImplStage5(with_noise, with_asymmetry, with_bm, sto_round_if, False, out_values, out_size, out_inc, mv_pars, io, rng)


@of("rpucuda.rpu_forward_backward_pass.finalizeOutputImplStage5")
def finalizeOutputImplStage5(with_noise, with_asymmetry, with_bm, sto_round_if, with_nonlinearity, out_values, out_size, out_inc, mv_pars, io, rng):
    idx = 0
    bound_test_passed = True
    bound = io.out_bound if io.out_bound > 0 else numeric_limits.infinity()
    asymmetry_scale = 1 - io.out_asymmetry
    res = io.out_res
    nlf = mv_pars.out_nonlinearity_factor
    for i in range(out_size):
        value = out_values[idx]
        if with_nonlinearity:
            value = nlf * value / (1 + abs(mv_pars.out_nonlinearity[i] * value))
        if with_asymmetry:
            value = value * asymmetry_scale if value < 0 else value
        if with_noise:
            noise_std = mv_pars.out_noise_values[i] if io.out_noise_std > 0 else io.out_noise
            value += noise_std * rng.sampleGauss()
        value = getDiscretizedValueSR(sto_round_if, value, res, rng)
        if with_bm:
            if value > bound:
                value = bound
                bound_test_passed = False
            elif value < -bound:
                value = -bound
                bound_test_passed = bound_test_passed and (not io.bm_test_negative_bound)
        else:
            value = min(bound, value)
            value = max(-bound, value)
        out_values[idx] = value
        idx += out_inc
    return bound_test_passed


@of("rpucuda.rpu_forward_backward_pass.prepareInputImplStage1")
def prepareInputImplStage1(scaling, out_values, in_values, in_size, in_inc, scale, io, rng):
    if io.inp_noise > 0:
        prepareInputImplStage2(scaling, True, out_values, in_values, in_size, in_inc, scale, io, rng)
    else:
        prepareInputImplStage2(scaling, False, out_values, in_values, in_size, in_inc, scale, io, rng)


@of("rpucuda.rpu_forward_backward_pass.prepareInputImplStage2")
def prepareInputImplStage2(scaling, with_noise, out_values, in_values, in_size, in_inc, scale, io, rng):
    if io.inp_sto_round:
        prepareInputImplStage3(scaling, with_noise, True, out_values, in_values, in_size, in_inc, scale, io, rng)
    else:
        prepareInputImplStage3(scaling, with_noise, False, out_values, in_values, in_size, in_inc, scale, io, rng)


@of("rpucuda.rpu_forward_backward_pass.prepareInputImplStage3")
def prepareInputImplStage3(scaling, with_noise, sto_round_if, out_values, in_values, in_size, in_inc, scale, io, rng):
    if io.inp_asymmetry != 0:
        prepareInputImplStage4(scaling, with_noise, sto_round_if, True, out_values, in_values, in_size, in_inc, scale, io, rng)
    else:
        prepareInputImplStage4(scaling, with_noise, sto_round_if, False, out_values, in_values, in_size, in_inc, scale, io, rng)


@of("rpucuda.rpu_forward_backward_pass.prepareInputImplStage4")
def prepareInputImplStage4(scaling, with_noise, sto_round_if, with_asymmetry, out_values, in_values, in_size, in_inc, scale, io, rng):
    bound = io.inp_bound if io.inp_bound > 0 else numeric_limits.infinity()
    noise = io.inp_noise
    asymmetry_scale = 1 - io.inp_asymmetry
    res = io.inp_res
    j_idx = 0
    for j in range(in_size):
        value = in_values[j_idx]
        j_idx += in_inc
        if scaling:
            value *= scale
        value = getDiscretizedValueSR(sto_round_if, value, res, rng)
        value = min(bound, value)
        value = max(-bound, value)
        if noise > 0:
            value += noise * rng.sampleGauss()
        if with_asymmetry:
            value = value * asymmetry_scale if value < 0 else value
        out_values[j] = value


@of("rpucuda.rpu_forward_backward_pass.swap__8")
def swap__8(a, b):
    a.x_size_, b.x_size_ = (b.x_size_, a.x_size_)
    a.d_size_, b.d_size_ = (b.d_size_, a.d_size_)
    a.fb_pars_, b.fb_pars_ = (b.fb_pars_, a.fb_pars_)


@of("rpucuda.rpu_forward_backward_pass.swap__9")
def swap__9(a, b):
    swap__8(a, b)
    a.f_io_, b.f_io_ = (b.f_io_, a.f_io_)
    a.b_io_, b.b_io_ = (b.b_io_, a.b_io_)
    a.checked_implemented_, b.checked_implemented_ = (b.checked_implemented_, a.checked_implemented_)
    a.aux_nm_value_, b.aux_nm_value_ = (b.aux_nm_value_, a.aux_nm_value_)
    a.rng_, b.rng_ = (b.rng_, a.rng_)


@of("rpucuda.rpu_forward_backward_pass.ForwardBackwardPass")
class ForwardBackwardPass:
    x_size_ = None
    d_size_ = None
    def ctor__2(self, x_size, d_size):
        self.x_size_ = x_size
        self.d_size_ = d_size

    def ctor__1(self):
        pass

    def getFBParameter(self):
        return self.fb_pars_

    def setFBParameter__1(self, fb_pars):
        self.fb_pars_ = fb_pars

    def forwardVector__2(self, weights, x_input, x_inc, d_output, d_inc, alpha, is_test):
        gemv__2(CblasRowMajor, CblasNoTrans, self.d_size_, self.x_size_, alpha, weights[0], self.x_size_, x_input, x_inc, 0, d_output, d_inc)

    def backwardVector__2(self, weights, d_input, d_inc, x_output, x_inc, alpha):
        gemv__2(CblasRowMajor, CblasTrans, self.d_size_, self.x_size_, alpha, weights[0], self.x_size_, d_input, d_inc, 0, x_output, x_inc)

    def gemv(self, weights, in_values, in_size, in_inc, out_values, out_size, out_inc, alpha, beta, transposed):
        if transposed:
            gemv__2(CblasRowMajor, CblasTrans, in_size, out_size, alpha, weights[0], out_size, in_values, in_inc, beta, out_values, out_inc)
        else:
            gemv__2(CblasRowMajor, CblasNoTrans, out_size, in_size, alpha, weights[0], in_size, in_values, in_inc, beta, out_values, out_inc)

    def dumpExtra(self, extra, prefix):
        state = make_state_t()
        insert__8(state, 'fwd.v_offset', self.fb_pars_.fwd.v_offset)
        insert__8(state, 'fwd.w_asymmetry', self.fb_pars_.fwd.w_asymmetry)
        insert__8(state, 'fwd.out_nonlinearity', self.fb_pars_.fwd.out_nonlinearity)
        insert__3(state, 'fwd.out_nonlinearity_factor', self.fb_pars_.fwd.out_nonlinearity_factor)
        insert__8(state, 'fwd.out_noise_values', self.fb_pars_.fwd.out_noise_values)
        insert__8(state, 'bwd.v_offset', self.fb_pars_.bwd.v_offset)
        insert__8(state, 'bwd.w_asymmetry', self.fb_pars_.bwd.w_asymmetry)
        insert__8(state, 'bwd.out_nonlinearity', self.fb_pars_.bwd.out_nonlinearity)
        insert__3(state, 'bwd.out_nonlinearity_factor', self.fb_pars_.bwd.out_nonlinearity_factor)
        insert__8(state, 'bwd.out_noise_values', self.fb_pars_.bwd.out_noise_values)
        insertWithPrefix(extra, state, prefix)

    def loadExtra(self, extra, prefix, strict):
        state = selectWithPrefix(extra, prefix)
        load__8(state, 'fwd.v_offset', self.fb_pars_.fwd.v_offset, strict)
        load__8(state, 'fwd.w_asymmetry', self.fb_pars_.fwd.w_asymmetry, strict)
        load__8(state, 'fwd.out_nonlinearity', self.fb_pars_.fwd.out_nonlinearity, strict)
        self.fb_pars_.fwd.out_nonlinearity_factor = load__3(state, 'fwd.out_nonlinearity_factor', self.fb_pars_.fwd.out_nonlinearity_factor, strict)
        load__8(state, 'fwd.out_noise_values', self.fb_pars_.fwd.out_noise_values, strict)
        load__8(state, 'bwd.v_offset', self.fb_pars_.bwd.v_offset, strict)
        load__8(state, 'bwd.w_asymmetry', self.fb_pars_.bwd.w_asymmetry, strict)
        load__8(state, 'bwd.out_nonlinearity', self.fb_pars_.bwd.out_nonlinearity, strict)
        self.fb_pars_.bwd.out_nonlinearity_factor = load__3(state, 'bwd.out_nonlinearity_factor', self.fb_pars_.bwd.out_nonlinearity_factor, strict)
        load__8(state, 'bwd.out_noise_values', self.fb_pars_.bwd.out_noise_values, strict)



@of("rpucuda.rpu_forward_backward_pass.ForwardBackwardPassIOManaged")
class ForwardBackwardPassIOManaged:
    neg_weights_ = None
    aux_nm_value_ = None
    checked_implemented_ = None
    rng_ = None
    def ctor__2(self, x_size, d_size, rng):
        ForwardBackwardPass.ctor__2(self, x_size, d_size)
        self.rng_ = rng
        self.aux_nm_value_ = -1

    def ctor__1(self):
        pass

    def dumpExtra(self, extra, prefix):
        ForwardBackwardPass.dumpExtra(self, extra, prefix)
        state = make_state_t()
        insert__3(state, 'aux_nm_value', self.aux_nm_value_)
        insertWithPrefix(extra, state, prefix)

    def loadExtra(self, extra, prefix, strict):
        ForwardBackwardPass.loadExtra(self, extra, prefix, strict)
        state = selectWithPrefix(extra, prefix)
        self.aux_nm_value_ = load__3(state, 'aux_nm_value', self.aux_nm_value_, strict)

    def forwardVector__2(self, weights, x_input, x_inc, d_output, d_inc, alpha, is_test):
        if self.f_io_.isPerfect():
            ForwardBackwardPass.forwardVector__2(self, weights, x_input, x_inc, d_output, d_inc, self.f_io_.out_scale * alpha, is_test)
            return
        if not self.checked_implemented_:
            self.ensureImplemented()
            self.checked_implemented_ = True
        t__1, self.aux_nm_value_ = computeNoiseManagement(x_input, self.x_size_, x_inc, self.f_io_.noise_management, self.aux_nm_value_, self.f_io_)
        nm_scale_value = t__1
        nm = self.f_io_.noise_management != NoiseManagementType.None_
        bm = self.f_io_.bound_management != BoundManagementType.None_
        if nm and nm_scale_value <= 0 and (self.f_io_.inp_noise <= 0):
            i_d = 0
            for i in range(self.d_size_):
                d_output[i_d] = 0
                i_d += d_inc
            return
        out_scale = 1
        out_scale = self.f_io_.out_scale * alpha
        bound_test_passed = False
        reduction_due_to_bound_management = 0.5
        scale = 1
        scaling = False
        bm_round = 0
        while bound_test_passed == False:
            bound_test_passed = True
            reduction_due_to_bound_management *= 2
            if bm_round == 1 and self.f_io_.bound_management == BoundManagementType.IterativeWorstCase and (self.f_io_.noise_management != NoiseManagementType.AbsMaxNPSum):
                t__2, self.aux_nm_value_ = computeNoiseManagement(x_input, self.x_size_, x_inc, NoiseManagementType.AbsMaxNPSum, self.aux_nm_value_, self.f_io_)
                nm_scale_value = t__2
                reduction_due_to_bound_management = 1
            bm_round += 1
            scaling = False
            scale = 1
            if nm and nm_scale_value > 0:
                scale /= nm_scale_value
                scaling = True
            if bm:
                scale /= reduction_due_to_bound_management
                scaling = True
            bound_test_passed = self.computeAnalogMV(weights, x_input, self.x_size_, x_inc, d_output, self.d_size_, d_inc, scale, scaling, self.fb_pars_.fwd, self.f_io_, False, is_test)
            if bm:
                bound_test_passed = bound_test_passed or to_int(to_int(reduction_due_to_bound_management)) > self.f_io_.max_bm_factor or (self.f_io_.inp_res > 0 and reduction_due_to_bound_management > self.f_io_.max_bm_res / self.f_io_.inp_res)
            else:
                bound_test_passed = True
        if scaling or out_scale != 1:
            scal__2(self.d_size_, out_scale / scale, d_output, d_inc)

    def backwardVector__2(self, weights, d_input, d_inc, x_output, x_inc, alpha):
        if self.b_io_.isPerfect():
            ForwardBackwardPass.backwardVector__2(self, weights, d_input, d_inc, x_output, x_inc, self.b_io_.out_scale * alpha)
            return
        self.b_io_.bound_management = BoundManagementType.None_
        t__1, self.aux_nm_value_ = computeNoiseManagement(d_input, self.d_size_, d_inc, self.b_io_.noise_management, self.aux_nm_value_, self.b_io_)
        nm_scale_value = t__1
        nm = self.b_io_.noise_management != NoiseManagementType.None_
        out_scale = self.b_io_.out_scale * alpha
        scaling = nm and nm_scale_value > 0
        if nm and nm_scale_value <= 0:
            j_x = 0
            for j in range(self.x_size_):
                x_output[j_x] = 0
                j_x += x_inc
            return
        self.computeAnalogMV(weights, d_input, self.d_size_, d_inc, x_output, self.x_size_, x_inc, 1 / nm_scale_value, scaling, self.fb_pars_.bwd, self.b_io_, True, False)
        if scaling or out_scale != 1:
            scal__2(self.x_size_, out_scale * nm_scale_value, x_output, x_inc)

    def populateFBParameter(self, f_io, b_io):
        self.f_io_ = f_io
        self.b_io_ = b_io
        self.f_io_.initializeForForward(self.x_size_, self.d_size_)
        self.b_io_.initializeForBackward(self.x_size_, self.d_size_)
        self.checked_implemented_ = False
    
        def populate(io, mv_pars, in_size, out_size):
            mv_pars.v_offset = copy(io.v_offset_vec)
            if len(mv_pars.v_offset) != out_size and io.hasVoltageOffsets():
                mv_pars.v_offset.resize(out_size)
                for i in range(out_size):
                    mv_pars.v_offset[i] = max(io.v_offset_std * self.rng_.sampleGauss(), 0)
            mv_pars.out_nonlinearity = copy(io.out_nonlinearity_vec)
            mv_pars.out_nonlinearity_factor = 1
            out_bound = io.out_bound if io.out_bound > 0 and io.out_bound < numeric_limits.infinity() else 1
            if io.hasNLCalibration():
                if len(mv_pars.out_nonlinearity) != out_size:
                    mv_pars.out_nonlinearity.resize(out_size)
                    for i in range(out_size):
                        mv_pars.out_nonlinearity[i] = abs(io.out_nonlinearity / out_bound * (1 + max(io.out_nonlinearity_std, 0) * self.rng_.sampleGauss()))
            if io.slope_calibration > 0:
                sum_nonlinearity = 0
                if io.hasOutNonlinearity():
                    for i in range(out_size):
                        sum_nonlinearity += abs(mv_pars.out_nonlinearity[i])
                r_correction = io.r_series
                f = 1 + (sum_nonlinearity / out_size + r_correction) * io.slope_calibration * out_bound
                mv_pars.out_nonlinearity_factor = f * f
            if io.w_read_asymmetry_dtod != 0:
                size = out_size * in_size
                mv_pars.w_asymmetry.resize(size)
                for i in range(size):
                    mv_pars.w_asymmetry[i] = 1 + io.w_read_asymmetry_dtod * self.rng_.sampleGauss()
            if io.out_noise_std > 0:
                mv_pars.out_noise_values.resize(out_size)
                for i in range(out_size):
                    mv_pars.out_noise_values[i] = abs(io.out_noise * (1 + io.out_noise_std * self.rng_.sampleGauss()))
        populate(self.f_io_, self.fb_pars_.fwd, self.x_size_, self.d_size_)
        populate(self.b_io_, self.fb_pars_.bwd, self.d_size_, self.x_size_)

    def computeAnalogMV(self, weights, org_in_values, in_size, in_inc, out_values, out_size, out_inc, scale, scaling, mv_pars, io, transposed, is_test):
        in_values = self.prepareInput(org_in_values, in_size, in_inc, scale, scaling, io)
        if io.mv_type == AnalogMVType.OnePass:
            self.computeAnalogMVSinglePass(weights, in_values, in_size, 1, out_values, out_size, out_inc, 1, 0, mv_pars, io, transposed)
            return self.finalizeOutput(out_values, out_size, out_inc, mv_pars, io)
        elif io.mv_type == AnalogMVType.PosNegSeparateDigitalSum or io.mv_type == AnalogMVType.PosNegSeparate:
            self.pos_neg_buffer_values_.resize(in_size)
            self.out_buffer_values_.resize(out_size)
            for i in range(in_size):
                self.pos_neg_buffer_values_[i] = min(in_values[i], 0)
            neg_weights = weights
            if io.w_read_asymmetry_dtod > 0:
                if self.neg_weights_ is None:
                    self.neg_weights_ = Array_2D_Get(self.d_size_, self.x_size_)
                neg_weights = self.neg_weights_
                for i in range(self.d_size_ * self.x_size_):
                    neg_weights[0][i] = weights[0][i] * mv_pars.w_asymmetry[i]
            bound_success = False
            self.computeAnalogMVSinglePass(neg_weights, self.pos_neg_buffer_values_, in_size, 1, self.out_buffer_values_, out_size, 1, 1, 0, mv_pars, io, transposed)
            if io.mv_type == AnalogMVType.PosNegSeparateDigitalSum:
                bound_success = self.finalizeOutput(self.out_buffer_values_, out_size, 1, mv_pars, io)
            for i in range(in_size):
                self.pos_neg_buffer_values_[i] = max(in_values[i], 0)
            self.computeAnalogMVSinglePass(weights, self.pos_neg_buffer_values_, in_size, 1, out_values, out_size, out_inc, 1, 0, mv_pars, io, transposed)
            if io.mv_type == AnalogMVType.PosNegSeparateDigitalSum:
                bound_success = self.finalizeOutput(out_values, out_size, out_inc, mv_pars, io) and bound_success
            i_out = 0
            for j in range(out_size):
                out_values[i_out] += self.out_buffer_values_[j]
                i_out += out_inc
            if io.mv_type == AnalogMVType.PosNegSeparate:
                bound_success = self.finalizeOutput(out_values, out_size, out_inc, mv_pars, io)
            return bound_success
        else:
            raise RuntimeError()

    def applyOutputWeightNoise(self, weights, out_values, out_size, out_inc, in_values, in_size, io, transposed):
        if io.w_noise_type == OutputWeightNoiseType.None_:
            return
        if io.w_noise_type == OutputWeightNoiseType.AdditiveConstant:
            if io.w_noise > 0:
                x_norm = nrm2__2(in_size, in_values, 1)
                w_std = io.w_noise * x_norm
                i_out = 0
                for i in range(out_size):
                    out_values[i_out] += w_std * self.rng_.sampleGauss()
                    i_out += out_inc
        elif io.w_noise_type == OutputWeightNoiseType.PCMRead:
            if io.w_noise > 0:
                w_std = io.w_noise
                self.tmp_in_values_.resize(in_size)
                for j in range(in_size):
                    self.tmp_in_values_[j] = in_values[j] * in_values[j]
                i_out = 0
                for i in range(out_size):
                    accum = 0
                    if transposed:
                        for j in range(in_size):
                            accum += abs(weights[j][i]) * self.tmp_in_values_[j]
                    else:
                        for j in range(in_size):
                            accum += abs(weights[i][j]) * self.tmp_in_values_[j]
                    out_values[i_out] += w_std * m_sqrt(accum) * self.rng_.sampleGauss()
                    i_out += out_inc
        else:
            raise RuntimeError()

    def applyIrDrop(self, weights, out_values, out_size, out_inc, in_values, current_values, in_size, io, transposed):
        if io.ir_drop <= 0:
            return
        self.tmp_in_values_.resize(in_size)
        self.tmp_c_values_.resize(out_size)
        self.tmp_out_values_.resize(out_size)
        a_scale = in_size / io.ir_drop_Gw_div_gmax
        for i in range(out_size):
            a = a_scale * current_values[i]
            self.tmp_c_values_[i] = a * (a * (0.05 * a - 0.2) + 0.5)
        for j in range(in_size):
            p = 1 - j / in_size
            self.tmp_in_values_[j] = in_values[j] * (1 - p * p)
        gemv__2(CblasRowMajor, CblasTrans if transposed else CblasNoTrans, self.d_size_, self.x_size_, io.ir_drop, weights[0], self.x_size_, self.tmp_in_values_, 1, 0, self.tmp_out_values_, 1)
        i_out = 0
        for i in range(out_size):
            out_values[i_out] -= self.tmp_c_values_[i] * self.tmp_out_values_[i]
            i_out += out_inc

    def applyVoltageOffsets(self, out_values, out_size, out_inc, in_values, in_size, mv_pars, io):
        rs = max(io.r_series, 0)
        rs_max_total = io.r_series_max_total
        if io.v_offset_w_min == 0:
            i_out = 0
            if rs <= 0:
                for i in range(out_size):
                    y = out_values[i_out]
                    v_offs = mv_pars.v_offset[i]
                    out_values[i_out] = y * (1 - v_offs)
                    i_out += out_inc
            else:
                for i in range(out_size):
                    y = out_values[i_out]
                    v_offs = mv_pars.v_offset[i]
                    nom = 1 + min(rs * abs(y), rs_max_total)
                    out_values[i_out] = (1 - v_offs) * y / nom
                    i_out += out_inc
        else:
            x_accum = 0
            for j in range(in_size):
                x_accum += in_values[j]
            i_out = 0
            if rs <= 0:
                y_ref2 = -io.v_offset_w_min * x_accum * 2
                for i in range(out_size):
                    y = out_values[i_out]
                    v_offs = mv_pars.v_offset[i]
                    out_values[i_out] = y * (1 - v_offs) - v_offs * y_ref2
                    i_out += out_inc
            else:
                y_ref = -io.v_offset_w_min * x_accum
                for i in range(out_size):
                    y = out_values[i_out]
                    v_offs = mv_pars.v_offset[i]
                    y_pos = y + y_ref
                    p_nom = 1 + min(rs * abs(y_pos), rs_max_total)
                    n_nom = 1 + min(rs * abs(y_ref), rs_max_total)
                    out_values[i_out] = (1 - v_offs) * y_pos / p_nom - (1 + v_offs) * y_ref / n_nom
                    i_out += out_inc

    def applyNonIdealities(self, weights, out_values, out_size, out_inc, in_values, in_size, mv_pars, io, transposed):
        if io.ir_drop > 0:
            current = self.computeTotalCurrent(weights, out_size, in_values, in_size, transposed)
            self.applyIrDrop(weights, out_values, out_size, out_inc, in_values, current, in_size, io, transposed)
        if io.hasVoltageOffsets():
            self.applyVoltageOffsets(out_values, out_size, out_inc, in_values, in_size, mv_pars, io)
        if io.w_noise_type != OutputWeightNoiseType.None_:
            self.applyOutputWeightNoise(weights, out_values, out_size, out_inc, in_values, in_size, io, transposed)

    def computeTotalCurrent(self, weights, out_size, in_values, in_size, transposed):
        self.current_buffer_values_.resize(out_size)
        for i in range(out_size):
            accum = 0
            if transposed:
                for j in range(in_size):
                    accum += abs(weights[j][i]) * abs(in_values[j])
            else:
                for j in range(in_size):
                    accum += abs(weights[i][j]) * abs(in_values[j])
            self.current_buffer_values_[i] = accum
        return self.current_buffer_values_

    def prepareInput(self, in_values, in_size, in_inc, scale, scaling, io):
        self.in_buffer_values_.resize(in_size)
        if scaling:
            prepareInputImplStage1(True, self.in_buffer_values_, in_values, in_size, in_inc, scale, io, self.rng_)
        else:
            prepareInputImplStage1(False, self.in_buffer_values_, in_values, in_size, in_inc, scale, io, self.rng_)
        return self.in_buffer_values_

    def finalizeOutput(self, out_values, out_size, out_inc, mv_pars, io):
        if io.out_asymmetry > 0:
            return finalizeOutputImplStage1(True, out_values, out_size, out_inc, mv_pars, io, self.rng_)
        else:
            return finalizeOutputImplStage1(False, out_values, out_size, out_inc, mv_pars, io, self.rng_)

    def computeAnalogMVSinglePass(self, weights, in_values, in_size, in_inc, out_values, out_size, out_inc, alpha, beta, mv_pars, io, transposed):
        ForwardBackwardPass.gemv(self, weights, in_values, in_size, in_inc, out_values, out_size, out_inc, alpha, beta, transposed)
        self.applyNonIdealities(weights, out_values, out_size, out_inc, in_values, in_size, mv_pars, io, transposed)

    def ensureImplemented(self):
        pass



@of("rpucuda.rpu_forward_backward_pass.MVParameter")
class MVParameter:
    out_nonlinearity_factor = None

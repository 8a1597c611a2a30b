@of("rpucuda.rpu_buffered_transfer_device.swap__2")
def swap__2(a, b):
    swap__34(a, b)
    a.transfer_buffer_vec_, b.transfer_buffer_vec_ = (b.transfer_buffer_vec_, a.transfer_buffer_vec_)


@of("rpucuda.rpu_buffered_transfer_device.BufferedTransferRPUDevice")
class BufferedTransferRPUDevice:
    def ctor__1(self):
        pass

    def ctor__2(self, x_sz, d_sz):
        TransferRPUDevice.ctor__2(self, x_sz, d_sz)

    def ctor__3(self, x_sz, d_sz, par, rng):
        self.ctor__2(x_sz, d_sz)
        self.populate__1(par, rng)

    def getPar(self):
        return SimpleRPUDevice.getPar(self)

    def clone(self):
        return make_BufferedTransferRPUDevice(self)

    def getDPNames(self, names):
        VectorRPUDevice.getDPNames(self, names)
        for k in range(self.n_devices_ - 1):
            names.push_back(ss)

    def getDeviceParameter__2(self, weights, data_ptrs):
        names = make_vector_string()
        self.getDPNames(names)
        if len(data_ptrs) < len(names):
            raise RuntimeError()
        TransferRPUDevice.getDeviceParameter__2(self, weights, data_ptrs)
        add_n = self.n_devices_ - 1
        m = len(names) - add_n
        for k in range(add_n):
            for i in range(self.size_):
                data_ptrs[m][i] = self.transfer_buffer_vec_[k][i]
            m += 1

    def setDeviceParameter__2(self, out_weights, data_ptrs):
        names = make_vector_string()
        self.getDPNames(names)
        if len(data_ptrs) < len(names):
            raise RuntimeError()
        TransferRPUDevice.setDeviceParameter__2(self, out_weights, data_ptrs)
        add_n = self.n_devices_ - 1
        m = len(names) - add_n
        for k in range(add_n):
            for i in range(self.size_):
                self.transfer_buffer_vec_[k][i] = data_ptrs[m + k][i]

    def getHiddenWeightsCount(self):
        if not self.n_devices_ != 0:
            return 0
        m = VectorRPUDevice.getHiddenWeightsCount(self)
        return m + self.n_devices_ - 1

    def setHiddenWeights(self, data):
        if not self.n_devices_ != 0:
            return
        VectorRPUDevice.setHiddenWeights(self, data)
        size = self.size_
        add_n = self.n_devices_ - 1
        offset = (self.getHiddenWeightsCount() - add_n) * size
        for k in range(add_n):
            if len(data) < offset + size:
                raise RuntimeError()
            for i in range(size):
                self.transfer_buffer_vec_[k][i] = data[offset + i]
            offset += size

    def readAndUpdate(self, to_device_idx, from_device_idx, lr, vec, n_vec, reset_prob_in, i_slice_start, m_batch_info):
        if lr == 0:
            return
        if to_device_idx == from_device_idx or from_device_idx >= self.n_devices_ - 1:
            return
        par = self.getPar()
        in_size = par.getInSize()
        out_size = par.getOutSize()
        self.transfer_tmp_.resize(out_size)
        weight_granularity = self.rpu_device_vec_[to_device_idx].getWeightGranularity()
        buffer_granularity = par.thres_scale * weight_granularity
        sub_momentum = 1 - max(min(par.momentum, 1), 0)
        step = par.step
        lr_abs = abs(lr)
        v_out = self.transfer_tmp_
        forget_buffer = par.forget_buffer
        max_steps = self.transfer_pwu_.getUpPar().desired_BL
        use_cols = par.transfer_columns
        w_inc = in_size if use_cols else 1
        for i in range(n_vec):
            v_in = ptr_add(vec, i * in_size)
            self.readVector(from_device_idx, v_in, v_out, 1)
            fp_w = self.transfer_buffer_vec_[from_device_idx]
            i_w = i_slice_start + i if use_cols else self.x_size_ * (i_slice_start + i)
            non_zero_count = 0
            for j in range(out_size):
                omega = fp_w[i_w]
                omega += v_out[j] * lr_abs
                n_steps = max(min(truncf(omega / buffer_granularity), max_steps), -max_steps)
                if forget_buffer:
                    fp_w[i_w] = omega * par.momentum if n_steps != 0 else omega
                else:
                    fp_w[i_w] = omega - sub_momentum * n_steps * buffer_granularity if n_steps != 0 else omega
                non_zero_count += to_int(to_int(n_steps)) != 0
                v_out[j] = -n_steps
                i_w += w_inc
            if non_zero_count > 0:
                self.writeVector(to_device_idx, v_in, v_out, step * weight_granularity, 1)

    def getTransferBuffers(self):
        return copy(self.transfer_buffer_vec_)

    def populate__1(self, p, rng):
        TransferRPUDevice.populate__20(self, p, rng)
        self.transfer_buffer_vec_.resize(self.n_devices_ - 1)
        for k in range(self.n_devices_ - 1):
            self.transfer_buffer_vec_[k].resize(self.size_)



@of("rpucuda.rpu_buffered_transfer_device.BufferedTransferRPUDeviceMetaParameter")
class BufferedTransferRPUDeviceMetaParameter:
    thres_scale = 1
    step = 1
    momentum = 0
    forget_buffer = True
    def ctor__1(self):
        TransferRPUDeviceMetaParameter.ctor__1(self)
        self.initDefaults()

    def ctor__2(self, dp, n_devices):
        TransferRPUDeviceMetaParameter.ctor__2(self, dp, n_devices)
        self.initDefaults()

    def ctor__3(self, dp_fast, dp_rest, n_total_devices):
        TransferRPUDeviceMetaParameter.ctor__3(self, dp_fast, dp_rest, n_total_devices)
        self.initDefaults()

    def initDefaults(self):
        self.transfer_lr = 1
        self.transfer_up.update_bl_management = False
        self.transfer_up.update_management = False
        self.transfer_up.desired_BL = 1
        self.transfer_up.fixed_BL = True
        self.scale_transfer_lr = True
        self.update_policy = VectorDeviceUpdatePolicy.SingleFixed
        self.first_update_idx = 0
        self.same_context = True
        self.with_reset_prob = 0
        self.random_selection = False
        self.no_self_transfer = True

    def getName(self):
        return ss

    def createDevice(self, x_size, d_size, rng):
        return make_BufferedTransferRPUDevice(x_size, d_size, self, rng)

    def clone(self):
        return make_BufferedTransferRPUDeviceMetaParameter(self)

    def implements(self):
        return DeviceUpdateType.BufferedTransfer

    def getTransferLR(self, to_device_idx, from_device_idx, current_lr):
        lr_gamma = TransferRPUDeviceMetaParameter.getTransferLR(self, to_device_idx, from_device_idx, current_lr)
        if self.gamma_vec[to_device_idx] > 0 and self.gamma_vec[from_device_idx] > 0:
            lr_gamma *= self.gamma_vec[from_device_idx] / self.gamma_vec[to_device_idx]
        return lr_gamma


@of("rpucuda.math_util.copyWithoutBias")
def copyWithoutBias(x_without_bias, x_with_bias, size, m_batch, trans):
    if trans:
        sz = m_batch * (size - 1)
        for t__1 in range(sz):
            x_without_bias[t__1] = x_with_bias[t__1]
    else:
        offset = 0
        offsetm1 = 0
        sz = sizeof * (size - 1)
        for j in range(m_batch):
            memcpy(ptr_add(x_without_bias, offsetm1), ptr_add(x_with_bias, offset), sz)
            offset += size
            offsetm1 += size - 1


@of("rpucuda.math_util.copy__1")
def copy__1(N, X, incX, Y, incY):
    cblas_dcopy(N, X, incX, Y, incY)


@of("rpucuda.math_util.copy__2")
def copy__2(N, X, incX, Y, incY):
    cblas_scopy(N, X, incX, Y, incY)


@of("rpucuda.math_util.gemm__1")
def gemm__1(Order, TransA, TransB, M, N, K, alpha, A, lda, B, ldb, beta, C, ldc):
    cblas_dgemm(Order, TransA, TransB, M, N, K, alpha, A, lda, B, ldb, beta, C, ldc)


@of("rpucuda.math_util.gemm__2")
def gemm__2(Order, TransA, TransB, M, N, K, alpha, A, lda, B, ldb, beta, C, ldc):
    cblas_sgemm(Order, TransA, TransB, M, N, K, alpha, A, lda, B, ldb, beta, C, ldc)


@of("rpucuda.math_util.gemv__1")
def gemv__1(Order, TransA, M, N, alpha, A, lda, X, incX, beta, Y, incY):
    cblas_dgemv(Order, TransA, M, N, alpha, A, lda, X, incX, beta, Y, incY)


@of("rpucuda.math_util.gemv__2")
def gemv__2(Order, TransA, M, N, alpha, A, lda, X, incX, beta, Y, incY):
    cblas_sgemv(Order, TransA, M, N, alpha, A, lda, X, incX, beta, Y, incY)


@of("rpucuda.math_util.ger__1")
def ger__1(Order, M, N, alpha, X, incX, Y, incY, A, lda):
    cblas_dger(Order, M, N, alpha, X, incX, Y, incY, A, lda)


@of("rpucuda.math_util.ger__2")
def ger__2(Order, M, N, alpha, X, incX, Y, incY, A, lda):
    cblas_sger(Order, M, N, alpha, X, incX, Y, incY, A, lda)


@of("rpucuda.math_util.iamax__1")
def iamax__1(N, X, incX):
    return cblas_idamax(N, X, incX)


@of("rpucuda.math_util.iamax__2")
def iamax__2(N, X, incX):
    return cblas_isamax(N, X, incX)


@of("rpucuda.math_util.makeBias__1")
def makeBias__1(x_with_bias, x_without_bias, size, m_batch, trans):
    if trans:
        sz = m_batch * (size - 1)
        for t__1 in range(sz):
            x_with_bias[t__1] = x_without_bias[t__1]
        for i in range(sz, sz + m_batch):
            x_with_bias[i] = 1
    else:
        offset = 0
        offsetm1 = 0
        sz = sizeof * (size - 1)
        for j in range(m_batch):
            memcpy(ptr_add(x_with_bias, offset), ptr_add(x_without_bias, offsetm1), sz)
            offset += size
            offsetm1 += size - 1
            x_with_bias[offset - 1] = 1


@of("rpucuda.math_util.makeBias__2")
def makeBias__2(x_with_bias, x_without_bias, size, m_batch, trans):
    if trans:
        sz = m_batch * (size - 1)
        for t__1 in range(sz):
            x_with_bias[t__1] = x_without_bias[t__1]
        for i in range(sz, sz + m_batch):
            x_with_bias[i] = 1
    else:
        offset = 0
        offsetm1 = 0
        sz = sizeof * (size - 1)
        for j in range(m_batch):
            memcpy(ptr_add(x_with_bias, offset), ptr_add(x_without_bias, offsetm1), sz)
            offset += size
            offsetm1 += size - 1
            x_with_bias[offset - 1] = to_int(to_int(1))


@of("rpucuda.math_util.max__1")
def max__1(N, X, incX):
    max_value = X[0]
    i_x = incX
    for i in range(1, N):
        if X[i_x] > max_value:
            max_value = X[i_x]
        i_x += incX
    return max_value


@of("rpucuda.math_util.max__2")
def max__2(N, X, incX):
    max_value = X[0]
    i_x = incX
    for i in range(1, N):
        if X[i_x] > max_value:
            max_value = X[i_x]
        i_x += incX
    return max_value


@of("rpucuda.math_util.nrm2__1")
def nrm2__1(N, X, incX):
    return cblas_dnrm2(N, X, incX)


@of("rpucuda.math_util.nrm2__2")
def nrm2__2(N, X, incX):
    return cblas_snrm2(N, X, incX)


@of("rpucuda.math_util.permute132")
def permute132(X_out, X_in, d1, d2, d3, bias):
    output_offset = 0
    size12 = d1 * (d2 - bias)
    sz = sizeof * d1
    for i in range(d2 - bias):
        input_offset = i * d1
        for j in range(d3):
            memcpy(ptr_add(X_out, output_offset), ptr_add(X_in, input_offset), sz)
            output_offset += d1
            input_offset += size12
    if bias:
        size13 = d1 * d3
        for k in range(size13):
            X_out[output_offset + k] = 1


@of("rpucuda.math_util.scal__1")
def scal__1(N, alpha, X, incX):
    cblas_dscal(N, alpha, X, incX)


@of("rpucuda.math_util.scal__2")
def scal__2(N, alpha, X, incX):
    cblas_sscal(N, alpha, X, incX)

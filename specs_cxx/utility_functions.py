@of("rpucuda.utility_functions.Array_2D_Free__1")
def Array_2D_Free__1(arr):
    pass


@of("rpucuda.utility_functions.Array_2D_Free__2")
def Array_2D_Free__2(arr):
    pass


@of("rpucuda.utility_functions.Array_2D_Get")
def Array_2D_Get(r, c):
    arr = make_float(r)
    arr[0] = make_float(r * c)
    for i in range(r):
        arr[i] = ptr_add(arr[0], c * i)
    return arr


@of("rpucuda.utility_functions.Array_2D_Get_Eye")
def Array_2D_Get_Eye(n):
    eye = Array_2D_Get(n, n)
    for j in range(n):
        for i in range(n):
            if i == j:
                eye[i][j] = 1
            else:
                eye[i][j] = 0
    return eye


@of("rpucuda.utility_functions.Array_3D_Free")
def Array_3D_Free(arr, n):
    if arr is not None:
        arr[0][0] = None
        for j in range(n):
            arr[j] = None
        arr = None


@of("rpucuda.utility_functions.Array_3D_Get")
def Array_3D_Get(n, r, c):
    arr = make_float(n)
    for j in range(n):
        arr[j] = make_float(r)
    arr[0][0] = make_float(r * c * n)
    for j in range(n):
        for i in range(r):
            arr[j][i] = ptr_add(ptr_add(arr[0][0], c * i), j * r * c)
    return arr


@of("rpucuda.utility_functions.Find_Absolute_Max")
def Find_Absolute_Max(data, data_length, inc):
    max_input_value = 0
    for i in range(0, data_length * inc, inc):
        abs_value = data[i] if data[i] >= 0 else -data[i]
        if abs_value > max_input_value:
            max_input_value = abs_value
    return max_input_value


@of("rpucuda.utility_functions.getDiscretizedValue")
def getDiscretizedValue(value, res, sto_round, rng):
    return value if res <= 0 else rintf(value / res + (rng.sampleUniform__1() - 0.5)) * res if sto_round else rintf(value / res) * res


@of("rpucuda.utility_functions.getDiscretizedValueRound")
def getDiscretizedValueRound(value, res, sto_round, rng):
    return value if res <= 0 else m_round(value / res + (rng.sampleUniform__1() - 0.5)) * res if sto_round else m_round(value / res) * res


@of("rpucuda.utility_functions.getDiscretizedValueSR")
def getDiscretizedValueSR(sto_round, value, res, rng):
    if sto_round:
        return getDiscretizedValue(value, res, True, rng)
    return value if res <= 0 else rintf(value / res) * res


@of("rpucuda.utility_functions.insertWithPrefix")
def insertWithPrefix(extra, state, prefix):
    full_prefix = prefix + '.'
    for i in state:
        if extra.count(i.first) != 0:
            raise RuntimeError()
        extra[full_prefix + i.first] = copy(i.second)


@of("rpucuda.utility_functions.insert__1")
def insert__1(state, key, value):
    tmp = make_vector_double([value])
    state[key] = copy(tmp)


@of("rpucuda.utility_functions.insert__10")
def insert__10(state, key, value):
    tmp = make_vector_double(value.begin(), value.end())
    state[key] = copy(tmp)


@of("rpucuda.utility_functions.insert__11")
def insert__11(state, key, value):
    tmp = make_vector_double(value.begin(), value.end())
    state[key] = copy(tmp)


@of("rpucuda.utility_functions.insert__12")
def insert__12(state, key, value):
    tmp = make_vector_double([value])
    state[key] = copy(tmp)


@of("rpucuda.utility_functions.insert__2")
def insert__2(state, key, value):
    tmp = make_vector_double([value])
    state[key] = copy(tmp)


@of("rpucuda.utility_functions.insert__3")
def insert__3(state, key, value):
    tmp = make_vector_double([value])
    state[key] = copy(tmp)


@of("rpucuda.utility_functions.insert__4")
def insert__4(state, key, value):
    tmp = make_vector_double([value])
    state[key] = copy(tmp)


@of("rpucuda.utility_functions.insert__5")
def insert__5(state, key, value):
    tmp = make_vector_double([value])
    state[key] = copy(tmp)


@of("rpucuda.utility_functions.insert__6")
def insert__6(state, key, value):
    tmp = make_vector_double(value.begin(), value.end())
    state[key] = copy(tmp)


@of("rpucuda.utility_functions.insert__7")
def insert__7(state, key, value):
    tmp = make_vector_double(value.begin(), value.end())
    state[key] = copy(tmp)


@of("rpucuda.utility_functions.insert__8")
def insert__8(state, key, value):
    tmp = make_vector_double(value.begin(), value.end())
    state[key] = copy(tmp)


@of("rpucuda.utility_functions.insert__9")
def insert__9(state, key, value):
    tmp = make_vector_double(value.begin(), value.end())
    state[key] = copy(tmp)


@of("rpucuda.utility_functions.load__1")
def load__1(state, key, value, strict):
    tmp = make_vector_double()
    tmp = state[key]
    value = tmp[0] != 0
    return value


@of("rpucuda.utility_functions.load__10")
def load__10(state, key, value, strict):
    tmp = make_vector_double()
    tmp = state[key]
    out = make_vector_long(tmp.begin(), tmp.end())
    value = copy(out)


@of("rpucuda.utility_functions.load__11")
def load__11(state, key, value, strict):
    tmp = make_vector_double()
    tmp = state[key]
    out = make_vector_unsigned_long(tmp.begin(), tmp.end())
    value = copy(out)


@of("rpucuda.utility_functions.load__12")
def load__12(state, key, value, strict):
    tmp = make_vector_double()
    tmp = state[key]
    value = to_int(to_int(tmp[0]))
    return value


@of("rpucuda.utility_functions.load__2")
def load__2(state, key, value, strict):
    tmp = make_vector_double()
    tmp = state[key]
    value = tmp[0]
    return value


@of("rpucuda.utility_functions.load__3")
def load__3(state, key, value, strict):
    tmp = make_vector_double()
    tmp = state[key]
    value = tmp[0]
    return value


@of("rpucuda.utility_functions.load__4")
def load__4(state, key, value, strict):
    tmp = make_vector_double()
    tmp = state[key]
    value = to_int(to_int(tmp[0]))
    return value


@of("rpucuda.utility_functions.load__5")
def load__5(state, key, value, strict):
    tmp = make_vector_double()
    tmp = state[key]
    value = to_int(to_int(tmp[0]))
    return value


@of("rpucuda.utility_functions.load__6")
def load__6(state, key, value, strict):
    tmp = make_vector_double()
    tmp = state[key]
    out = make_vector_bool(tmp.begin(), tmp.end())
    value = copy(out)


@of("rpucuda.utility_functions.load__7")
def load__7(state, key, value, strict):
    tmp = make_vector_double()
    tmp = state[key]
    out = make_vector_double(tmp.begin(), tmp.end())
    value = copy(out)


@of("rpucuda.utility_functions.load__8")
def load__8(state, key, value, strict):
    tmp = make_vector_double()
    tmp = state[key]
    out = make_vector(tmp.begin(), tmp.end())
    value = copy(out)


@of("rpucuda.utility_functions.load__9")
def load__9(state, key, value, strict):
    tmp = make_vector_double()
    tmp = state[key]
    out = make_vector_int(tmp.begin(), tmp.end())
    value = copy(out)


@of("rpucuda.utility_functions.selectWithPrefix")
def selectWithPrefix(extra, prefix):
    state = make_state_t()
    full_prefix = prefix + '.'
    for i in extra:
        if i.first.find(full_prefix, 0) == 0:
            name = i.first.substr(full_prefix.length(), npos)
            state[name] = copy(i.second)
    return state


@of("rpucuda.utility_functions.Context")
class Context:
    def synchronize(self):
        pass


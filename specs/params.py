"""Reference definitions of configurations, presets and their builders (parsed, never run), confirmed against the documentation of the fields."""


@of("aihwkit.simulator.configs.compounds.UnitCell")
class UnitCell:
    bindings_class = 'VectorResistiveDeviceParameter'
    bindings_module = 'devices'
    bindings_typed = True
    bindings_ignore = ['diffusion', 'lifetime']
    unit_cell_devices = field(default_factory=list)
    construction_seed = 0


@of("aihwkit.simulator.configs.compounds.VectorUnitCell")
class VectorUnitCell:
    bindings_class = 'VectorResistiveDeviceParameter'
    update_policy = VectorUnitCellUpdatePolicy.ALL
    first_update_idx = 0
    gamma_vec = field(default_factory=list, metadata={'hide_if': []})


@of("aihwkit.simulator.configs.compounds.ReferenceUnitCell")
class ReferenceUnitCell:
    bindings_class = 'VectorResistiveDeviceParameter'
    update_policy = VectorUnitCellUpdatePolicy.SINGLE_FIXED
    first_update_idx = 0
    gamma_vec = field(default_factory=lambda: [1.0, -1.0], metadata={'hide_if': [1.0, -1.0]})


@of("aihwkit.simulator.configs.compounds.OneSidedUnitCell")
class OneSidedUnitCell:
    bindings_class = 'OneSidedResistiveDeviceParameter'
    refresh_every = 0
    units_in_mbatch = True
    refresh_upper_thres = 0.75
    refresh_lower_thres = 0.25
    refresh_forward = field(default_factory=IOParameters)
    refresh_update = field(default_factory=UpdateParameters)
    copy_inverted = False


@of("aihwkit.simulator.configs.compounds.TransferCompound")
class TransferCompound:
    bindings_class = 'TransferResistiveDeviceParameter'
    gamma = 0.0
    gamma_vec = field(default_factory=list, metadata={'hide_if': []})
    transfer_every = 1.0
    no_self_transfer = True
    transfer_every_vec = field(default_factory=list, metadata={'hide_if': []})
    units_in_mbatch = True
    n_reads_per_transfer = 1
    transfer_columns = True
    with_reset_prob = 0.0
    random_selection = False
    fast_lr = 1.0
    transfer_lr = 1.0
    transfer_lr_vec = field(default_factory=list, metadata={'hide_if': []})
    scale_transfer_lr = True
    scale_fast_lr = True
    transfer_forward = field(default_factory=IOParameters)
    transfer_update = field(default_factory=UpdateParameters)


@of("aihwkit.simulator.configs.compounds.BufferedTransferCompound")
class BufferedTransferCompound:
    bindings_class = 'BufferedTransferResistiveDeviceParameter'
    thres_scale = 1.0
    step = 1.0
    momentum = 0.1
    forget_buffer = True
    transfer_update = field(default_factory=lambda: UpdateParameters(desired_bl=1, update_bl_management=False, update_management=False))


@of("aihwkit.simulator.configs.compounds.ChoppedTransferCompound")
class ChoppedTransferCompound:
    bindings_class = 'ChoppedTransferResistiveDeviceParameter'
    in_chop_prob = 0.1
    in_chop_random = True
    out_chop_prob = 0.0
    buffer_granularity = 1.0
    auto_granularity = 0.0
    step = 1.0
    momentum = 0.0
    forget_buffer = True
    no_buffer = False
    units_in_mbatch = False
    auto_scale = False
    auto_momentum = 0.99
    correct_gradient_magnitudes = False
    transfer_columns = True
    fast_lr = 1.0
    transfer_lr = 1.0
    scale_transfer_lr = True
    scale_fast_lr = False
    transfer_forward = field(default_factory=IOParameters)
    transfer_update = field(default_factory=lambda: UpdateParameters(desired_bl=1, update_bl_management=False, update_management=False))


@of("aihwkit.simulator.configs.compounds.DynamicTransferCompound")
class DynamicTransferCompound:
    bindings_class = 'DynamicTransferResistiveDeviceParameter'
    in_chop_prob = 0.1
    in_chop_random = False
    experimental_correct_accumulation = False
    step = 1.0
    momentum = 0.0
    transfer_columns = True
    buffer_granularity = 1.0
    buffer_cap = 0.0
    forget_buffer = True
    fast_lr = 1.0
    transfer_lr = 1.0
    scale_transfer_lr = True
    tail_weightening = 5.0
    transfer_forward = field(default_factory=IOParameters)
    transfer_update = field(default_factory=lambda: UpdateParameters(desired_bl=1, update_bl_management=False, update_management=False))


@of("aihwkit.simulator.configs.compounds.DigitalRankUpdateCell")
class DigitalRankUpdateCell:
    bindings_class = 'AbstractResistiveDeviceParameter'
    bindings_ignore = ['diffusion', 'lifetime']
    device = field(default_factory=VectorUnitCell)
    construction_seed = 0


@of("aihwkit.simulator.configs.compounds.MixedPrecisionCompound")
class MixedPrecisionCompound:
    bindings_class = 'MixedPrecResistiveDeviceParameter'
    transfer_every = 1
    n_rows_per_transfer = -1
    random_row = False
    granularity = 0.0
    transfer_lr = 1.0
    n_x_bins = 0
    n_d_bins = 0
    stoc_round_x = True
    stoc_round_d = True


@of("aihwkit.simulator.configs.configs.FloatingPointRPUConfig")
class FloatingPointRPUConfig:
    tile_class = FloatingPointTile
    tile_array_class = TileModuleArray
    device = field(default_factory=FloatingPointDevice)


@of("aihwkit.simulator.configs.configs.IOManagedRPUConfig")
class IOManagedRPUConfig:
    bindings_class = 'AnalogTileParameter'
    bindings_module = 'devices'
    forward = field(default_factory=IOParameters, metadata=dict(bindings_include=True))
    backward = field(default_factory=IOParameters, metadata=dict(bindings_include=True))
    update = field(default_factory=UpdateParameters, metadata=dict(bindings_include=True))


@of("aihwkit.simulator.configs.configs.SingleRPUConfig")
class SingleRPUConfig:
    tile_class = AnalogTile
    tile_array_class = TileModuleArray
    device = field(default_factory=ConstantStepDevice)


@of("aihwkit.simulator.configs.configs.UnitCellRPUConfig")
class UnitCellRPUConfig:
    tile_class = AnalogTile
    tile_array_class = TileModuleArray
    device = field(default_factory=UnitCell)


@of("aihwkit.simulator.configs.configs.DigitalRankUpdateRPUConfig")
class DigitalRankUpdateRPUConfig:
    tile_class = AnalogTile
    tile_array_class = TileModuleArray
    device = field(default_factory=DigitalRankUpdateCell)


@of("aihwkit.simulator.configs.configs.InferenceRPUConfig")
class InferenceRPUConfig:
    tile_class = InferenceTile
    tile_array_class = TileModuleArray
    forward = field(default_factory=IOParameters, metadata=dict(bindings_include=True))
    noise_model = field(default_factory=PCMLikeNoiseModel)
    drift_compensation = field(default_factory=GlobalDriftCompensation)
    clip = field(default_factory=WeightClipParameter)
    remap = field(default_factory=WeightRemapParameter)
    modifier = field(default_factory=WeightModifierParameter)
    device = field(default_factory=IdealDevice, init=False)
    backward = field(default_factory=lambda: IOParameters(is_perfect=True), init=False, metadata=dict(bindings_include=True))
    update = field(default_factory=lambda: UpdateParameters(pulse_type=PulseType.NONE), init=False, metadata=dict(bindings_include=True))


@of("aihwkit.simulator.configs.configs.TorchInferenceRPUConfig")
class TorchInferenceRPUConfig:
    simulator_tile_class = TorchSimulatorTile
    tile_class = TorchInferenceTile
    tile_array_class = TileModuleArray


@of("aihwkit.simulator.configs.configs.QuantizedTorchInferenceRPUConfig")
class QuantizedTorchInferenceRPUConfig:
    tile_class = QuantizedTorchInferenceTile
    tile_array_class = QuantizedTileModuleArray
    act_quant_config = None
    pre_post = field(default_factory=PrePostProcessingParameterQuant)


@of("aihwkit.simulator.configs.configs.TorchInferenceRPUConfigIRDropT")
class TorchInferenceRPUConfigIRDropT:
    simulator_tile_class = TorchSimulatorTileIRDropT
    forward = field(default_factory=IOParametersIRDropT)


@of("aihwkit.simulator.configs.devices.FloatingPointDevice")
class FloatingPointDevice:
    bindings_class = 'FloatingPointTileParameter'
    bindings_module = 'devices'
    diffusion = 0.0
    lifetime = 0.0
    drift = field(default_factory=SimpleDriftParameter)


@of("aihwkit.simulator.configs.devices.PulsedDevice")
class PulsedDevice:
    bindings_class = 'PulsedResistiveDeviceParameter'
    bindings_module = 'devices'
    construction_seed = 0
    corrupt_devices_prob = 0.0
    corrupt_devices_range = 0.1
    diffusion = 0.0
    diffusion_dtod = 0.0
    drift = field(default_factory=DriftParameter, metadata={'hide_if': DriftParameter()})
    dw_min = 0.001
    dw_min_dtod = 0.3
    dw_min_dtod_log_normal = False
    dw_min_std = 0.3
    enforce_consistency = True
    lifetime = 0.0
    lifetime_dtod = 0.0
    perfect_bias = False
    reset = 0.0
    reset_dtod = 0.0
    reset_std = 0.01
    up_down = 0.0
    up_down_dtod = 0.01
    w_max = 0.6
    w_max_dtod = 0.3
    w_min = -0.6
    w_min_dtod = 0.3
    count_pulses = False


@of("aihwkit.simulator.configs.devices.IdealDevice")
class IdealDevice:
    bindings_class = 'IdealResistiveDeviceParameter'
    bindings_module = 'devices'
    construction_seed = 0
    diffusion = 0.0
    lifetime = 0.0
    reset_std = 0.01


@of("aihwkit.simulator.configs.devices.ConstantStepDevice")
class ConstantStepDevice:
    bindings_class = 'ConstantStepResistiveDeviceParameter'


@of("aihwkit.simulator.configs.devices.LinearStepDevice")
class LinearStepDevice:
    bindings_class = 'LinearStepResistiveDeviceParameter'
    gamma_up = 0.0
    gamma_down = 0.0
    gamma_up_dtod = 0.05
    gamma_down_dtod = 0.05
    allow_increasing = False
    mean_bound_reference = True
    mult_noise = True
    write_noise_std = 0.0
    apply_write_noise_on_set = True
    reverse_up = False
    reverse_down = False
    reverse_offset = 0.01


@of("aihwkit.simulator.configs.devices.SoftBoundsDevice")
class SoftBoundsDevice:
    bindings_class = 'SoftBoundsResistiveDeviceParameter'
    mult_noise = True
    write_noise_std = 0.0
    apply_write_noise_on_set = True
    reverse_up = False
    reverse_down = False
    reverse_offset = 0.01


@of("aihwkit.simulator.configs.devices.SoftBoundsPmaxDevice")
class SoftBoundsPmaxDevice:
    p_max = 1000
    alpha = 0.001 / 2
    range_min = -1.0
    range_max = 1.0
    w_min = field(default_factory=lambda: None, metadata={'hide_if': None})
    w_max = field(default_factory=lambda: None, metadata={'hide_if': None})
    dw_min = field(default_factory=lambda: None, metadata={'hide_if': None})
    up_down = field(default_factory=lambda: None, metadata={'hide_if': None})


@of("aihwkit.simulator.configs.devices.SoftBoundsReferenceDevice")
class SoftBoundsReferenceDevice:
    bindings_class = 'SoftBoundsReferenceResistiveDeviceParameter'
    mult_noise = False
    write_noise_std = 0.0
    apply_write_noise_on_set = True
    slope_up_dtod = 0.0
    slope_down_dtod = 0.0
    reference_mean = 0.0
    reference_std = 0.0
    subtract_symmetry_point = False


@of("aihwkit.simulator.configs.devices.ExpStepDevice")
class ExpStepDevice:
    bindings_class = 'ExpStepResistiveDeviceParameter'
    A_up = 0.00081
    A_down = 0.36833
    gamma_up = 12.44625
    gamma_down = 12.78785
    a = 0.244
    b = 0.2425
    dw_min_std_add = 0.0
    dw_min_std_slope = 0.0
    write_noise_std = 0.0
    apply_write_noise_on_set = True


@of("aihwkit.simulator.configs.devices.PowStepDevice")
class PowStepDevice:
    bindings_class = 'PowStepResistiveDeviceParameter'
    pow_gamma = 1.0
    pow_gamma_dtod = 0.1
    pow_up_down = 0.0
    pow_up_down_dtod = 0.0
    write_noise_std = 0.0
    apply_write_noise_on_set = True


@of("aihwkit.simulator.configs.devices.PowStepReferenceDevice")
class PowStepReferenceDevice:
    bindings_class = 'PowStepReferenceResistiveDeviceParameter'
    pow_gamma = 1.0
    pow_gamma_dtod = 0.1
    pow_up_down = 0.0
    pow_up_down_dtod = 0.0
    subtract_symmetry_point = False
    n_estimation_steps = -1
    reference_mean = 0.0
    reference_std = 0.0


@of("aihwkit.simulator.configs.devices.PiecewiseStepDevice")
class PiecewiseStepDevice:
    bindings_class = 'PiecewiseStepResistiveDeviceParameter'
    piecewise_up = field(default_factory=lambda: [1])
    piecewise_down = field(default_factory=lambda: [1])
    write_noise_std = 0.0
    apply_write_noise_on_set = True


@of("aihwkit.simulator.parameters.base.RPUConfigBase")
class RPUConfigBase:
    runtime = field(default_factory=RuntimeParameter, compare=False)


@of("aihwkit.simulator.parameters.enums.RPUDataType")
class RPUDataType:
    FLOAT = 'float'
    DOUBLE = 'double'
    HALF = 'half'


@of("aihwkit.simulator.parameters.enums.AnalogContextDataViewMode")
class AnalogContextDataViewMode:
    PLACEHOLDER = 'placeholder'
    DATA_VIEW = 'data_view'
    BUFFER = 'buffer'


@of("aihwkit.simulator.parameters.enums.BoundManagementType")
class BoundManagementType:
    NONE = 'None'
    ITERATIVE = 'Iterative'
    ITERATIVE_WORST_CASE = 'IterativeWorstCase'
    SHIFT = 'Shift'


@of("aihwkit.simulator.parameters.enums.NoiseManagementType")
class NoiseManagementType:
    NONE = 'None'
    ABS_MAX = 'AbsMax'
    ABS_MAX_NP_SUM = 'AbsMaxNPSum'
    MAX = 'Max'
    CONSTANT = 'Constant'
    AVERAGE_ABS_MAX = 'AverageAbsMax'


@of("aihwkit.simulator.parameters.enums.WeightNoiseType")
class WeightNoiseType:
    NONE = 'None'
    ADDITIVE_CONSTANT = 'AdditiveConstant'
    PCM_READ = 'PCMRead'


@of("aihwkit.simulator.parameters.enums.PulseType")
class PulseType:
    NONE = 'None'
    STOCHASTIC_COMPRESSED = 'StochasticCompressed'
    STOCHASTIC = 'Stochastic'
    NONE_WITH_DEVICE = 'NoneWithDevice'
    MEAN_COUNT = 'MeanCount'
    DETERMINISTIC_IMPLICIT = 'DeterministicImplicit'


@of("aihwkit.simulator.parameters.enums.WeightModifierType")
class WeightModifierType:
    NONE = 'None'
    DISCRETIZE = 'Discretize'
    MULT_NORMAL = 'MultNormal'
    ADD_NORMAL = 'AddNormal'
    DISCRETIZE_ADD_NORMAL = 'DiscretizeAddNormal'
    DOREFA = 'DoReFa'
    POLY = 'Poly'
    PCM_NOISE = 'PCMNoise'
    PROG_NOISE = 'ProgNoise'
    DROP_CONNECT = 'DropConnect'
    COPY = 'Copy'


@of("aihwkit.simulator.parameters.enums.WeightClipType")
class WeightClipType:
    NONE = 'None'
    FIXED_VALUE = 'FixedValue'
    LAYER_GAUSSIAN = 'LayerGaussian'
    AVERAGE_CHANNEL_MAX = 'AverageChannelMax'


@of("aihwkit.simulator.parameters.enums.WeightRemapType")
class WeightRemapType:
    NONE = 'None'
    LAYERWISE_SYMMETRIC = 'LayerwiseSymmetric'
    CHANNELWISE_SYMMETRIC = 'ChannelwiseSymmetric'


@of("aihwkit.simulator.parameters.enums.VectorUnitCellUpdatePolicy")
class VectorUnitCellUpdatePolicy:
    ALL = 'All'
    SINGLE_FIXED = 'SingleFixed'
    SINGLE_SEQUENTIAL = 'SingleSequential'
    SINGLE_RANDOM = 'SingleRandom'


@of("aihwkit.simulator.parameters.enums.AnalogMVType")
class AnalogMVType:
    IDEAL = 'Ideal'
    ONE_PASS = 'OnePass'
    POS_NEG_SEPARATE = 'PosNegSeparate'
    POS_NEG_SEPARATE_DIGITAL_SUM = 'PosNegSeparateDigitalSum'
    SPLIT_MODE = 'SplitMode'
    BIT_WISE = 'BitWise'


@of("aihwkit.simulator.parameters.enums.CountLRFeedbackPolicy")
class CountLRFeedbackPolicy:
    NONE = 'None'
    PAST_MOMENTUM = 'PastMomentum'
    EXTERN = 'Extern'


@of("aihwkit.simulator.parameters.inference.WeightModifierParameter")
class WeightModifierParameter:
    bindings_class = 'WeightModifierParameter'
    bindings_module = 'tiles'
    std_dev = 0.0
    per_batch_sample = False
    res = 0.0
    sto_round = False
    dorefa_clip = 0.6
    pdrop = 0.0
    enable_during_test = False
    rel_to_actual_wmax = True
    assumed_wmax = 1.0
    copy_last_column = False
    coeffs = field(default_factory=lambda: [0.0105392, 0.0768, -0.046925], metadata={'hide_if': [0.0105392, 0.0768, -0.046925]})
    type = field(default_factory=lambda: WeightModifierType.NONE, metadata={'always_show': True})
    g_max = 25.0
    pcm_zero_thres = 0.0
    pcm_t_inference = 0.0
    pcm_prob_at_reset = 0.0
    pcm_prob_at_gmax = 0.0
    pcm_prob_at_random = 0.0
    pcm_t0 = 20.0


@of("aihwkit.simulator.parameters.inference.WeightClipParameter")
class WeightClipParameter:
    bindings_class = tiles.WeightClipParameter
    fixed_value = -1.0
    sigma = 2.5
    type = field(default_factory=lambda: WeightClipType.NONE, metadata={'always_show': True})


@of("aihwkit.simulator.parameters.inference.WeightRemapParameter")
class WeightRemapParameter:
    bindings_class = tiles.WeightRemapParameter
    remapped_wmax = 1.0
    max_scale_range = 0.0
    max_scale_ref = 0.0
    type = field(default_factory=lambda: WeightRemapType.NONE, metadata={'always_show': True})


@of("aihwkit.simulator.parameters.inference.SimpleDriftParameter")
class SimpleDriftParameter:
    bindings_class = 'DriftParameter'
    bindings_module = 'devices'
    nu = 0.0
    t_0 = 1.0
    reset_tol = 1e-07


@of("aihwkit.simulator.parameters.inference.DriftParameter")
class DriftParameter:
    nu_dtod = 0.0
    nu_std = 0.0
    wg_ratio = 1.0
    g_offset = 0.0
    w_offset = 0.0
    nu_k = 0.0
    log_g0 = 0.0
    w_noise_std = 0.0


@of("aihwkit.simulator.parameters.io.IOParameters")
class IOParameters:
    bindings_class = 'AnalogTileInputOutputParameter'
    bindings_module = 'devices'
    is_perfect = False
    mv_type = AnalogMVType.ONE_PASS
    inp_bound = 1.0
    inp_noise = 0.0
    inp_res = 1 / (2 ** 7 - 2)
    inp_sto_round = False
    inp_asymmetry = 0.0
    out_bound = 12.0
    out_noise = 0.06
    out_noise_std = 0.0
    out_res = 1 / (2 ** 9 - 2)
    out_sto_round = False
    out_scale = 1.0
    out_asymmetry = 0.0
    bound_management = BoundManagementType.ITERATIVE
    noise_management = NoiseManagementType.ABS_MAX
    w_noise = 0.0
    w_noise_type = WeightNoiseType.NONE
    ir_drop = 0.0
    ir_drop_g_ratio = 1.0 / 0.35 / 5e-06
    out_nonlinearity = 0.0
    out_nonlinearity_std = 0.0
    slope_calibration = 0.0
    v_offset_std = 0.0
    v_offset_w_min = -1.0
    r_series = 0.0
    w_read_asymmetry_dtod = 0.0
    max_bm_factor = 1000
    max_bm_res = 0.25
    bm_test_negative_bound = True
    nm_thres = 0.0


@of("aihwkit.simulator.parameters.io.IOParametersIRDropT")
class IOParametersIRDropT:
    bindings_ignore = ['ir_drop_rs', 'ir_drop_segments', 'ir_drop_time_step_resolution_scale', 'ir_drop_v_read', 'split_mode_bit_shift', 'apply_xdep_pcm_read_noise', 'xdep_pcm_read_noise_scale', 'adc_quantization', 'adc_frequency', 'ir_drop_integration_sum']
    ir_drop = 1.0
    ir_drop_rs = 0.15
    ir_drop_segments = 8
    ir_drop_time_step_resolution_scale = 1.0
    ir_drop_v_read = 0.4005
    split_mode_bit_shift = 3
    apply_xdep_pcm_read_noise = False
    xdep_pcm_read_noise_scale = 1.0
    adc_quantization = True
    adc_frequency = 6.24
    ir_drop_integration_sum = False


@of("aihwkit.simulator.parameters.mapping.MappingParameter")
class MappingParameter:
    digital_bias = True
    weight_scaling_omega = 0.0
    weight_scaling_columnwise = False
    weight_scaling_lr_compensation = False
    learn_out_scaling = False
    out_scaling_columnwise = False
    max_input_size = 512
    max_output_size = 512


@of("aihwkit.simulator.parameters.mapping.MappableRPU")
class MappableRPU:
    tile_array_class = None
    mapping = field(default_factory=MappingParameter)


@of("aihwkit.simulator.parameters.pre_post.InputRangeParameter")
class InputRangeParameter:
    enable = field(default_factory=lambda: False, metadata={'always_show': True})
    learn_input_range = True
    init_value = 3.0
    init_from_data = 100
    init_std_alpha = 3.0
    decay = 0.001
    input_min_percentage = 0.95
    manage_output_clipping = False
    output_min_percentage = 0.95
    gradient_scale = 1.0
    gradient_relative = True
    calibration_info = None


@of("aihwkit.simulator.parameters.pre_post.PeripheryQuantizationParameter")
class PeripheryQuantizationParameter:
    n_bits = 0
    symmetric = True
    learn_quant_params = False
    init_learning_after = 100


@of("aihwkit.simulator.parameters.pre_post.PrePostProcessingParameter")
class PrePostProcessingParameter:
    input_range = field(default_factory=InputRangeParameter)


@of("aihwkit.simulator.parameters.pre_post.PrePostProcessingParameterQuant")
class PrePostProcessingParameterQuant:
    periph_quant = field(default_factory=PeripheryQuantizationParameter)


@of("aihwkit.simulator.parameters.pre_post.PrePostProcessingRPU")
class PrePostProcessingRPU:
    pre_post = field(default_factory=PrePostProcessingParameter)


@of("aihwkit.simulator.parameters.quantization.BaseQuantConfig")
class BaseQuantConfig:
    n_bits = 0
    symmetric = True
    _range_estimator_params = field(init=False)
    _range_estimator_to_params = field(default_factory=lambda: {RangeEstimators.allminmax: None, RangeEstimators.current_minmax: CurrentMinMaxEstimatorParams, RangeEstimators.running_minmax: RunningMinMaxEstimatorParams, RangeEstimators.MSE: MSEEstimatorParams, RangeEstimators.cross_entropy: CrossEntropyEstimatorParams}, init=False)


@of("aihwkit.simulator.parameters.quantization.QuantizationConfig")
class QuantizationConfig:
    activation_quant = field(default_factory=ActivationQuantConfig)
    weight_quant = field(default_factory=WeightQuantConfig)


@of("aihwkit.simulator.parameters.quantization.QuantizationMap")
class QuantizationMap:
    default_qconfig = field(default_factory=QuantizationConfig)
    module_qconfig_map = field(default_factory=lambda: {})
    instance_qconfig_map = field(default_factory=lambda: {})
    input_activation_qconfig_map = field(default_factory=lambda: {})
    excluded_modules = field(default_factory=lambda: [])


@of("aihwkit.simulator.parameters.runtime.RuntimeParameter")
class RuntimeParameter:
    data_type = RPUDataType.FLOAT
    on_the_fly_bindings = False
    offload_input = False
    offload_gradient = False


@of("aihwkit.simulator.parameters.training.UpdateParameters")
class UpdateParameters:
    bindings_class = 'AnalogTileUpdateParameter'
    bindings_module = 'devices'
    desired_bl = 31
    fixed_bl = True
    pulse_type = PulseType.STOCHASTIC_COMPRESSED
    res = 0
    x_res_implicit = 0
    d_res_implicit = 0
    d_sparsity = False
    sto_round = False
    update_bl_management = True
    update_management = True
    um_grad_scale = 1.0


@of("aihwkit.simulator.presets.compounds.PCMPresetUnitCell")
class PCMPresetUnitCell:
    unit_cell_devices = field(default_factory=lambda: [PCMPresetDevice(), PCMPresetDevice()])
    refresh_every = 1
    units_in_mbatch = True
    refresh_forward = field(default_factory=PresetIOParameters)
    refresh_update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=31))


@of("aihwkit.simulator.presets.configs.ReRamESPreset")
class ReRamESPreset:
    device = field(default_factory=ReRamESPresetDevice)
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.ReRamSBPreset")
class ReRamSBPreset:
    device = field(default_factory=ReRamSBPresetDevice)
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.CapacitorPreset")
class CapacitorPreset:
    device = field(default_factory=CapacitorPresetDevice)
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.EcRamPreset")
class EcRamPreset:
    device = field(default_factory=EcRamPresetDevice)
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.EcRamMOPreset")
class EcRamMOPreset:
    device = field(default_factory=EcRamMOPresetDevice)
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.IdealizedPreset")
class IdealizedPreset:
    device = field(default_factory=IdealizedPresetDevice)
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.GokmenVlasovPreset")
class GokmenVlasovPreset:
    device = field(default_factory=GokmenVlasovPresetDevice)
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.PCMPreset")
class PCMPreset:
    device = field(default_factory=PCMPresetUnitCell)
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.ReRamES2Preset")
class ReRamES2Preset:
    device = field(default_factory=lambda: VectorUnitCell(unit_cell_devices=[ReRamESPresetDevice(), ReRamESPresetDevice()], update_policy=VectorUnitCellUpdatePolicy.SINGLE_RANDOM))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.ReRamSB2Preset")
class ReRamSB2Preset:
    device = field(default_factory=lambda: VectorUnitCell(unit_cell_devices=[ReRamSBPresetDevice(), ReRamSBPresetDevice()], update_policy=VectorUnitCellUpdatePolicy.SINGLE_RANDOM))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.Capacitor2Preset")
class Capacitor2Preset:
    device = field(default_factory=lambda: VectorUnitCell(unit_cell_devices=[CapacitorPresetDevice(), CapacitorPresetDevice()], update_policy=VectorUnitCellUpdatePolicy.SINGLE_RANDOM))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.EcRam2Preset")
class EcRam2Preset:
    device = field(default_factory=lambda: VectorUnitCell(unit_cell_devices=[EcRamPresetDevice(), EcRamPresetDevice()], update_policy=VectorUnitCellUpdatePolicy.SINGLE_RANDOM))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.EcRamMO2Preset")
class EcRamMO2Preset:
    device = field(default_factory=lambda: VectorUnitCell(unit_cell_devices=[EcRamMOPresetDevice(), EcRamMOPresetDevice()], update_policy=VectorUnitCellUpdatePolicy.SINGLE_RANDOM))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.Idealized2Preset")
class Idealized2Preset:
    device = field(default_factory=lambda: VectorUnitCell(unit_cell_devices=[IdealizedPresetDevice(), IdealizedPresetDevice()], update_policy=VectorUnitCellUpdatePolicy.SINGLE_RANDOM))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.ReRamES4Preset")
class ReRamES4Preset:
    device = field(default_factory=lambda: VectorUnitCell(unit_cell_devices=[ReRamESPresetDevice(), ReRamESPresetDevice(), ReRamESPresetDevice(), ReRamESPresetDevice()], update_policy=VectorUnitCellUpdatePolicy.SINGLE_RANDOM))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.ReRamSB4Preset")
class ReRamSB4Preset:
    device = field(default_factory=lambda: VectorUnitCell(unit_cell_devices=[ReRamSBPresetDevice(), ReRamSBPresetDevice(), ReRamSBPresetDevice(), ReRamSBPresetDevice()], update_policy=VectorUnitCellUpdatePolicy.SINGLE_RANDOM))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.Capacitor4Preset")
class Capacitor4Preset:
    device = field(default_factory=lambda: VectorUnitCell(unit_cell_devices=[CapacitorPresetDevice(), CapacitorPresetDevice(), CapacitorPresetDevice(), CapacitorPresetDevice()], update_policy=VectorUnitCellUpdatePolicy.SINGLE_RANDOM))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.EcRam4Preset")
class EcRam4Preset:
    device = field(default_factory=lambda: VectorUnitCell(unit_cell_devices=[EcRamPresetDevice(), EcRamPresetDevice(), EcRamPresetDevice(), EcRamPresetDevice()], update_policy=VectorUnitCellUpdatePolicy.SINGLE_RANDOM))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.EcRamMO4Preset")
class EcRamMO4Preset:
    device = field(default_factory=lambda: VectorUnitCell(unit_cell_devices=[EcRamMOPresetDevice(), EcRamMOPresetDevice(), EcRamMOPresetDevice(), EcRamMOPresetDevice()], update_policy=VectorUnitCellUpdatePolicy.SINGLE_RANDOM))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.Idealized4Preset")
class Idealized4Preset:
    device = field(default_factory=lambda: VectorUnitCell(unit_cell_devices=[IdealizedPresetDevice(), IdealizedPresetDevice(), IdealizedPresetDevice(), IdealizedPresetDevice()], update_policy=VectorUnitCellUpdatePolicy.SINGLE_RANDOM))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.TikiTakaReRamESPreset")
class TikiTakaReRamESPreset:
    device = field(default_factory=lambda: TransferCompound(unit_cell_devices=[ReRamESPresetDevice(), ReRamESPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(), units_in_mbatch=True))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.TikiTakaReRamSBPreset")
class TikiTakaReRamSBPreset:
    device = field(default_factory=lambda: TransferCompound(unit_cell_devices=[ReRamSBPresetDevice(subtract_symmetry_point=True), ReRamSBPresetDevice(subtract_symmetry_point=True)], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(), transfer_every=1.0, units_in_mbatch=True))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.TikiTakaCapacitorPreset")
class TikiTakaCapacitorPreset:
    device = field(default_factory=lambda: TransferCompound(unit_cell_devices=[CapacitorPresetDevice(), CapacitorPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(), units_in_mbatch=True))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.TikiTakaEcRamPreset")
class TikiTakaEcRamPreset:
    device = field(default_factory=lambda: TransferCompound(unit_cell_devices=[EcRamPresetDevice(), EcRamPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(), units_in_mbatch=True))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.TikiTakaEcRamMOPreset")
class TikiTakaEcRamMOPreset:
    device = field(default_factory=lambda: TransferCompound(unit_cell_devices=[EcRamMOPresetDevice(), EcRamMOPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(), units_in_mbatch=True))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.TikiTakaIdealizedPreset")
class TikiTakaIdealizedPreset:
    device = field(default_factory=lambda: TransferCompound(unit_cell_devices=[IdealizedPresetDevice(), IdealizedPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(), units_in_mbatch=True))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.TTv2ReRamESPreset")
class TTv2ReRamESPreset:
    device = field(default_factory=lambda: ChoppedTransferCompound(unit_cell_devices=[ReRamESPresetDevice(), ReRamESPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), units_in_mbatch=False, in_chop_prob=0.0, fast_lr=0.5, auto_scale=True, auto_granularity=1000))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=31))


@of("aihwkit.simulator.presets.configs.TTv2ReRamSBPreset")
class TTv2ReRamSBPreset:
    device = field(default_factory=lambda: ChoppedTransferCompound(unit_cell_devices=[ReRamSBPresetDevice(subtract_symmetry_point=True), ReRamSBPresetDevice(subtract_symmetry_point=True)], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), units_in_mbatch=False, in_chop_prob=0.0, fast_lr=0.5, auto_scale=True, auto_granularity=1000))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=31))


@of("aihwkit.simulator.presets.configs.TTv2CapacitorPreset")
class TTv2CapacitorPreset:
    device = field(default_factory=lambda: ChoppedTransferCompound(unit_cell_devices=[CapacitorPresetDevice(), CapacitorPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), units_in_mbatch=False, in_chop_prob=0.0, fast_lr=0.1, auto_scale=True, auto_granularity=1000))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=31))


@of("aihwkit.simulator.presets.configs.TTv2EcRamPreset")
class TTv2EcRamPreset:
    device = field(default_factory=lambda: ChoppedTransferCompound(unit_cell_devices=[EcRamPresetDevice(), EcRamPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), units_in_mbatch=False, in_chop_prob=0.0, fast_lr=0.1, auto_scale=True, auto_granularity=500))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=100))


@of("aihwkit.simulator.presets.configs.TTv2EcRamMOPreset")
class TTv2EcRamMOPreset:
    device = field(default_factory=lambda: ChoppedTransferCompound(unit_cell_devices=[EcRamMOPresetDevice(), EcRamMOPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), units_in_mbatch=False, in_chop_prob=0.0, fast_lr=0.1, auto_scale=True, auto_granularity=500))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=100))


@of("aihwkit.simulator.presets.configs.TTv2IdealizedPreset")
class TTv2IdealizedPreset:
    device = field(default_factory=lambda: ChoppedTransferCompound(unit_cell_devices=[IdealizedPresetDevice(), IdealizedPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), units_in_mbatch=False, in_chop_prob=0.0, fast_lr=0.1, auto_scale=True, auto_granularity=500))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=100))


@of("aihwkit.simulator.presets.configs.ChoppedTTv2ReRamESPreset")
class ChoppedTTv2ReRamESPreset:
    device = field(default_factory=lambda: ChoppedTransferCompound(unit_cell_devices=[ReRamESPresetDevice(), ReRamESPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), units_in_mbatch=False, in_chop_prob=0.01, fast_lr=0.5, auto_scale=True, auto_granularity=1000))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=31))


@of("aihwkit.simulator.presets.configs.ChoppedTTv2ReRamSBPreset")
class ChoppedTTv2ReRamSBPreset:
    device = field(default_factory=lambda: ChoppedTransferCompound(unit_cell_devices=[ReRamSBPresetDevice(subtract_symmetry_point=True), ReRamSBPresetDevice(subtract_symmetry_point=True)], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), units_in_mbatch=False, in_chop_prob=0.01, fast_lr=0.5, auto_scale=True, auto_granularity=1000))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=31))


@of("aihwkit.simulator.presets.configs.ChoppedTTv2CapacitorPreset")
class ChoppedTTv2CapacitorPreset:
    device = field(default_factory=lambda: ChoppedTransferCompound(unit_cell_devices=[CapacitorPresetDevice(), CapacitorPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), units_in_mbatch=False, in_chop_prob=0.01, fast_lr=0.1, auto_scale=True, auto_granularity=1000))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=31))


@of("aihwkit.simulator.presets.configs.ChoppedTTv2EcRamPreset")
class ChoppedTTv2EcRamPreset:
    device = field(default_factory=lambda: ChoppedTransferCompound(unit_cell_devices=[EcRamPresetDevice(), EcRamPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), auto_granularity=500, in_chop_prob=0.01, units_in_mbatch=False, auto_scale=True))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=100))


@of("aihwkit.simulator.presets.configs.ChoppedTTv2EcRamMOPreset")
class ChoppedTTv2EcRamMOPreset:
    device = field(default_factory=lambda: ChoppedTransferCompound(unit_cell_devices=[EcRamMOPresetDevice(), EcRamMOPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), units_in_mbatch=False, in_chop_prob=0.001, fast_lr=0.1, auto_scale=True, auto_granularity=500))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=100))


@of("aihwkit.simulator.presets.configs.ChoppedTTv2IdealizedPreset")
class ChoppedTTv2IdealizedPreset:
    device = field(default_factory=lambda: ChoppedTransferCompound(unit_cell_devices=[IdealizedPresetDevice(), IdealizedPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), units_in_mbatch=False, in_chop_prob=0.001, fast_lr=0.1, auto_scale=True, auto_granularity=500))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=100))


@of("aihwkit.simulator.presets.configs.AGADReRamESPreset")
class AGADReRamESPreset:
    device = field(default_factory=lambda: DynamicTransferCompound(unit_cell_devices=[ReRamESPresetDevice(), ReRamESPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), fast_lr=0.5, auto_granularity=1000, tail_weightening=5.0, in_chop_prob=0.02, auto_scale=True))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=31))


@of("aihwkit.simulator.presets.configs.AGADReRamSBPreset")
class AGADReRamSBPreset:
    device = field(default_factory=lambda: DynamicTransferCompound(unit_cell_devices=[ReRamSBPresetDevice(subtract_symmetry_point=True), ReRamSBPresetDevice(subtract_symmetry_point=True)], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), fast_lr=0.5, auto_granularity=1000, tail_weightening=5.0, in_chop_prob=0.02, auto_scale=True))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=31))


@of("aihwkit.simulator.presets.configs.AGADCapacitorPreset")
class AGADCapacitorPreset:
    device = field(default_factory=lambda: DynamicTransferCompound(unit_cell_devices=[CapacitorPresetDevice(), CapacitorPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), units_in_mbatch=False, fast_lr=0.1, auto_granularity=1000, tail_weightening=20.0, in_chop_prob=0.01, auto_scale=True))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=31))


@of("aihwkit.simulator.presets.configs.AGADEcRamPreset")
class AGADEcRamPreset:
    device = field(default_factory=lambda: DynamicTransferCompound(unit_cell_devices=[EcRamPresetDevice(), EcRamPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), fast_lr=0.1, auto_granularity=750, tail_weightening=50.0, in_chop_prob=0.005, units_in_mbatch=False, auto_scale=True))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=31))


@of("aihwkit.simulator.presets.configs.AGADEcRamMOPreset")
class AGADEcRamMOPreset:
    device = field(default_factory=lambda: DynamicTransferCompound(unit_cell_devices=[EcRamMOPresetDevice(), EcRamMOPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), fast_lr=0.1, auto_granularity=500, tail_weightening=50.0, in_chop_prob=0.005, units_in_mbatch=False, auto_scale=True))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=100))


@of("aihwkit.simulator.presets.configs.AGADIdealizedPreset")
class AGADIdealizedPreset:
    device = field(default_factory=lambda: DynamicTransferCompound(unit_cell_devices=[IdealizedPresetDevice(), IdealizedPresetDevice()], transfer_forward=PresetIOParameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=PresetUpdateParameters(desired_bl=1, update_bl_management=False, update_management=False), fast_lr=0.1, auto_granularity=500, tail_weightening=50.0, in_chop_prob=0.005, units_in_mbatch=False, auto_scale=True))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=lambda: PresetUpdateParameters(desired_bl=100))


@of("aihwkit.simulator.presets.configs.MixedPrecisionReRamESPreset")
class MixedPrecisionReRamESPreset:
    device = field(default_factory=lambda: MixedPrecisionCompound(device=ReRamESPresetDevice()))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.MixedPrecisionReRamSBPreset")
class MixedPrecisionReRamSBPreset:
    device = field(default_factory=lambda: MixedPrecisionCompound(device=ReRamSBPresetDevice()))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.MixedPrecisionCapacitorPreset")
class MixedPrecisionCapacitorPreset:
    device = field(default_factory=lambda: MixedPrecisionCompound(device=CapacitorPresetDevice()))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.MixedPrecisionEcRamPreset")
class MixedPrecisionEcRamPreset:
    device = field(default_factory=lambda: MixedPrecisionCompound(device=EcRamPresetDevice()))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.MixedPrecisionEcRamMOPreset")
class MixedPrecisionEcRamMOPreset:
    device = field(default_factory=lambda: MixedPrecisionCompound(device=EcRamMOPresetDevice()))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.MixedPrecisionIdealizedPreset")
class MixedPrecisionIdealizedPreset:
    device = field(default_factory=lambda: MixedPrecisionCompound(device=IdealizedPresetDevice()))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.MixedPrecisionGokmenVlasovPreset")
class MixedPrecisionGokmenVlasovPreset:
    device = field(default_factory=lambda: MixedPrecisionCompound(device=GokmenVlasovPresetDevice()))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.configs.MixedPrecisionPCMPreset")
class MixedPrecisionPCMPreset:
    device = field(default_factory=lambda: MixedPrecisionCompound(device=PCMPresetUnitCell()))
    forward = field(default_factory=PresetIOParameters)
    backward = field(default_factory=PresetIOParameters)
    update = field(default_factory=PresetUpdateParameters)


@of("aihwkit.simulator.presets.devices.ReRamESPresetDevice")
class ReRamESPresetDevice:
    dw_min = 0.00135
    up_down = 0.259359
    w_max = 1.0
    w_min = -1.0
    a = -0.5
    b = -0.5
    gamma_up = 5.0
    gamma_down = 5.0
    A_up = -1.18445
    A_down = -0.081404
    dw_min_dtod = 0.2
    up_down_dtod = 0.05
    w_max_dtod = 0.3
    w_min_dtod = 0.3
    dw_min_std = 5.0
    write_noise_std = 75.0


@of("aihwkit.simulator.presets.devices.ReRamSBPresetDevice")
class ReRamSBPresetDevice:
    dw_min = 0.002
    up_down = 0.0
    w_max = 1.25
    w_min = -0.75
    mult_noise = False
    dw_min_dtod = 0.3
    up_down_dtod = 0.01
    w_max_dtod = 0.3 / 1.25
    w_min_dtod = 0.3 / 0.75
    dw_min_std = 3.75
    write_noise_std = 56


@of("aihwkit.simulator.presets.devices.CapacitorPresetDevice")
class CapacitorPresetDevice:
    dw_min = 0.005
    up_down = 0.0
    w_max = 1.0
    w_min = -1.0
    mult_noise = False
    gamma_up = 0.05
    gamma_down = 0.05
    dw_min_dtod = 0.1
    up_down_dtod = 0.06
    w_max_dtod = 0.07
    w_min_dtod = 0.07
    gamma_up_dtod = 0.01
    gamma_down_dtod = 0.01
    dw_min_std = 0.3
    write_noise_std = 0.0
    mean_bound_reference = True
    lifetime = 1000000.0
    lifetime_dtod = 0.3


@of("aihwkit.simulator.presets.devices.EcRamPresetDevice")
class EcRamPresetDevice:
    dw_min = 0.002
    up_down = 0.0
    w_max = 1.1724
    w_min = -0.8276
    mult_noise = True
    gamma_up = 0.1153
    gamma_down = 0.5085
    dw_min_dtod = 0.1
    up_down_dtod = 0.01
    w_max_dtod = 0.05
    w_min_dtod = 0.05
    gamma_up_dtod = 0.05
    gamma_down_dtod = 0.05
    dw_min_std = 0.3
    write_noise_std = 0.0
    mean_bound_reference = True


@of("aihwkit.simulator.presets.devices.EcRamMOPresetDevice")
class EcRamMOPresetDevice:
    dw_min = 0.00028214
    up_down = 0.0
    w_max = 1.1714
    w_min = -0.8286
    mult_noise = True
    gamma_up = 0.4152
    gamma_down = 0.7342
    dw_min_dtod = 0.1
    up_down_dtod = 0.01
    w_max_dtod = 0.05
    w_min_dtod = 0.05
    gamma_up_dtod = 0.05
    gamma_down_dtod = 0.05
    dw_min_std = 2.0
    write_noise_std = 0.0
    mean_bound_reference = True


@of("aihwkit.simulator.presets.devices.IdealizedPresetDevice")
class IdealizedPresetDevice:
    dw_min = 0.0002
    dw_min_dtod = 0.3
    dw_min_std = 0.3
    up_down = 0.0
    up_down_dtod = 0.0
    w_max = 1.0
    w_min = -1.0
    w_max_dtod = 0.3
    w_min_dtod = 0.3


@of("aihwkit.simulator.presets.devices.GokmenVlasovPresetDevice")
class GokmenVlasovPresetDevice:
    dw_min = 0.0016
    dw_min_dtod = 0.3
    dw_min_std = 0.3
    up_down = 0.0
    up_down_dtod = 0.01
    w_max = 1.0
    w_min = -1.0
    w_max_dtod = 0.3
    w_min_dtod = 0.3


@of("aihwkit.simulator.presets.devices.PCMPresetDevice")
class PCMPresetDevice:
    dw_min = 0.01
    up_down = 0.0
    w_max = 2.0
    w_min = 0.0
    a = -1.0
    b = 0.0
    gamma_up = 2.5
    gamma_down = 2.5
    A_up = -27.235
    A_down = -2.235
    dw_min_dtod = 0.2
    up_down_dtod = 0.05
    w_max_dtod = 0.1
    w_min_dtod = 0.0
    dw_min_std = 0.6
    dw_min_std_add = 0.042
    dw_min_std_slope = 0.108
    write_noise_std = 0.0
    reset = 0.01
    reset_dtod = 0.02


@of("aihwkit.simulator.presets.devices.ReRamArrayOMPresetDevice")
class ReRamArrayOMPresetDevice:
    enforce_consistency = True
    dw_min_dtod_log_normal = True
    dw_min = 0.0949
    up_down = 0.0
    w_max = 1.0
    w_min = -1.0
    mult_noise = False
    dw_min_dtod = 0.7829
    up_down_dtod = 0.01
    w_max_dtod = 0.3499
    w_min_dtod = 0.5695
    dw_min_std = 0.4158
    write_noise_std = 1.4113
    corrupt_devices_range = 0.01
    corrupt_devices_prob = 0.0
    subtract_symmetry_point = True
    reference_std = 0.05


@of("aihwkit.simulator.presets.devices.ReRamArrayHfO2PresetDevice")
class ReRamArrayHfO2PresetDevice:
    enforce_consistency = True
    dw_min_dtod_log_normal = True
    dw_min = 0.4622
    up_down = 0.0
    w_max = 1.0
    w_min = -1.0
    mult_noise = False
    dw_min_dtod = 0.7125
    up_down_dtod = 0.01
    w_max_dtod = 0.4295
    w_min_dtod = 0.599
    dw_min_std = 0.2174
    write_noise_std = 0.5841
    corrupt_devices_range = 0.01
    corrupt_devices_prob = 0.0
    subtract_symmetry_point = True
    reference_std = 0.05


@of("aihwkit.simulator.presets.inference.FloatingPointPreset")
class FloatingPointPreset:
    mapping = field(default_factory=lambda: MappingParameter(max_input_size=0, max_output_size=0))
    forward = field(default_factory=lambda: IOParameters(is_perfect=True))
    pre_post = field(default_factory=lambda: PrePostProcessingParameter(input_range=InputRangeParameter(enable=False)))


@of("aihwkit.simulator.presets.inference.StandardHWATrainingPreset")
class StandardHWATrainingPreset:
    mapping = field(default_factory=lambda: MappingParameter(weight_scaling_omega=1.0, weight_scaling_columnwise=True, max_input_size=512, max_output_size=0, digital_bias=True, learn_out_scaling=True, out_scaling_columnwise=True))
    forward = field(default_factory=lambda: PresetIOParameters(inp_res=254.0, out_res=254.0, bound_management=BoundManagementType.NONE, noise_management=NoiseManagementType.CONSTANT, nm_thres=1.0, w_noise=0.0175, w_noise_type=WeightNoiseType.PCM_READ, ir_drop=1.0, out_noise=0.04, out_bound=10.0))
    remap = field(default_factory=lambda: WeightRemapParameter(remapped_wmax=1.0, type=WeightRemapType.CHANNELWISE_SYMMETRIC))
    noise_model = field(default_factory=PCMLikeNoiseModel)
    drift_compensation = field(default_factory=GlobalDriftCompensation)
    pre_post = field(default_factory=lambda: PrePostProcessingParameter(input_range=InputRangeParameter(enable=True, init_value=3.0, init_from_data=100, init_std_alpha=3.0, decay=0.001, input_min_percentage=0.95, output_min_percentage=0.95, manage_output_clipping=False, gradient_scale=1.0, gradient_relative=True)))
    clip = field(default_factory=lambda: WeightClipParameter(type=WeightClipType.FIXED_VALUE, fixed_value=1.0))


@of("aihwkit.simulator.presets.utils.PresetIOParameters")
class PresetIOParameters:
    bound_management = BoundManagementType.ITERATIVE
    noise_management = NoiseManagementType.ABS_MAX
    inp_res = 1.0 / (2 ** 7 - 2)
    inp_sto_round = False
    out_bound = 20.0
    out_noise = 0.1
    out_res = 1.0 / (2 ** 9 - 2)
    w_noise = 0.0
    w_noise_type = WeightNoiseType.NONE


@of("aihwkit.simulator.presets.utils.PresetUpdateParameters")
class PresetUpdateParameters:
    desired_bl = 31
    pulse_type = PulseType.STOCHASTIC_COMPRESSED
    update_bl_management = True
    update_management = True


@of("aihwkit.simulator.presets.utils.StandardIOParameters")
class StandardIOParameters:
    bound_management = BoundManagementType.ITERATIVE
    noise_management = NoiseManagementType.ABS_MAX
    inp_res = 1.0 / (2 ** 8 - 2)
    inp_sto_round = False
    out_bound = 10.0
    out_noise = 0.04
    out_res = 1.0 / (2 ** 8 - 2)
    w_noise = 0.0
    w_noise_type = WeightNoiseType.NONE


@of("aihwkit.simulator.presets.web.WebComposerIOParameters")
class WebComposerIOParameters:
    bound_management = BoundManagementType.ITERATIVE
    noise_management = NoiseManagementType.ABS_MAX
    inp_res = 1.0 / (2 ** 7 - 2)
    inp_sto_round = False
    out_bound = 20.0
    out_noise = 0.1
    out_res = 1.0 / (2 ** 9 - 2)
    w_noise = 0.0
    w_noise_type = WeightNoiseType.NONE


@of("aihwkit.simulator.presets.web.WebComposerWeightModifierParameter")
class WebComposerWeightModifierParameter:
    type = WeightModifierType.ADD_NORMAL
    std_dev = 0.1


@of("aihwkit.simulator.presets.web.WebComposerWeightClipParameter")
class WebComposerWeightClipParameter:
    fixed_value = 1.0
    type = WeightClipType.FIXED_VALUE


@of("aihwkit.simulator.presets.web.WebComposerMappingParameter")
class WebComposerMappingParameter:
    digital_bias = True
    weight_scaling_omega = 1.0
    weight_scaling_columnwise = True
    learn_out_scaling = True
    out_scaling_columnwise = False
    max_input_size = 512
    max_output_size = 512


@of("aihwkit.simulator.presets.web.WebComposerInferenceRPUConfig")
class WebComposerInferenceRPUConfig:
    forward = field(default_factory=WebComposerIOParameters, metadata=dict(bindings_include=True))
    noise_model = field(default_factory=PCMLikeNoiseModel)
    drift_compensation = field(default_factory=GlobalDriftCompensation)
    clip = field(default_factory=WebComposerWeightClipParameter)
    modifier = field(default_factory=WebComposerWeightModifierParameter)
    mapping = field(default_factory=WebComposerMappingParameter)


@of("aihwkit.simulator.presets.web.OldWebComposerMappingParameter")
class OldWebComposerMappingParameter:
    digital_bias = False
    weight_scaling_omega = 1.0
    weight_scaling_columnwise = True
    learn_out_scaling = False
    out_scaling_columnwise = False
    max_input_size = 0
    max_output_size = 0


@of("aihwkit.simulator.presets.web.OldWebComposerInferenceRPUConfig")
class OldWebComposerInferenceRPUConfig:
    mapping = field(default_factory=OldWebComposerMappingParameter)


@of("aihwkit.simulator.configs.helpers.build_config")
def build_config(algorithm: str, device: Union[Type[PulsedDevice], PulsedDevice, Callable], io_parameters: Union[Type[IOParameters], IOParameters, Callable]=IOParameters, up_parameters: Union[Type[UpdateParameters], UpdateParameters, Callable]=UpdateParameters, n_devices: int=1, construction_seed: int=0, **kwargs: Any):
    if isinstance(device, PulsedDevice):
        device_to_use = device

        def device_fun(**kwargs: Any) -> PulsedDevice:
            dev = deepcopy(device_to_use)
            dev.__dict__.update(**kwargs)
            return dev
        device = device_fun
    if isinstance(io_parameters, IOParameters):
        io_pars_to_use = io_parameters

        def io_pars_fun(**kwargs: Any) -> IOParameters:
            io_pars = deepcopy(io_pars_to_use)
            io_pars.__dict__.update(**kwargs)
            return io_pars
        io_parameters = io_pars_fun
    if isinstance(up_parameters, UpdateParameters):
        up_pars_to_use = up_parameters

        def up_pars_fun(**kwargs: Any) -> UpdateParameters:
            up_pars = deepcopy(up_pars_to_use)
            up_pars.__dict__.update(**kwargs)
            return up_pars
        up_parameters = up_pars_fun
    if algorithm.lower() in ['sgd']:
        if n_devices == 1:
            return SingleRPUConfig(device=device(construction_seed=construction_seed), forward=io_parameters(), backward=io_parameters(), update=up_parameters(), **kwargs)
        return UnitCellRPUConfig(device=VectorUnitCell(unit_cell_devices=[device() for _ in range(n_devices)], update_policy=VectorUnitCellUpdatePolicy.SINGLE_RANDOM, construction_seed=construction_seed), forward=io_parameters(), backward=io_parameters(), update=up_parameters(), **kwargs)
    if algorithm.lower() in ['tiki-taka', 'tt', 'ttv1']:
        return UnitCellRPUConfig(device=TransferCompound(unit_cell_devices=[device(), device()], transfer_forward=io_parameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=up_parameters(), units_in_mbatch=True, construction_seed=construction_seed), forward=io_parameters(), backward=io_parameters(), update=up_parameters(), **kwargs)
    if algorithm.lower() in ['ttv2']:
        return UnitCellRPUConfig(device=ChoppedTransferCompound(unit_cell_devices=[device(), device()], transfer_forward=io_parameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=up_parameters(desired_bl=1, update_bl_management=False, update_management=False), in_chop_prob=0.0, units_in_mbatch=False, auto_scale=False, construction_seed=construction_seed), forward=io_parameters(), backward=io_parameters(), update=up_parameters(desired_bl=5), **kwargs)
    if algorithm.lower() in ['chopped-ttv2', 'ttv3', 'c-ttv2']:
        return UnitCellRPUConfig(device=ChoppedTransferCompound(unit_cell_devices=[device(), device()], transfer_forward=io_parameters(noise_management=NoiseManagementType.NONE, bound_management=BoundManagementType.NONE), transfer_update=up_parameters(desired_bl=1, update_bl_management=False, update_management=False), units_in_mbatch=False, fast_lr=0.1, auto_scale=True, construction_seed=construction_seed), forward=io_parameters(), backward=io_parameters(), update=up_parameters(desired_bl=5), **kwargs)
    if algorithm.lower() in ['agad', 'ttv4']:
        return UnitCellRPUConfig(device=DynamicTransferCompound(unit_cell_devices=[device(), device()], transfer_forward=io_parameters(), transfer_update=up_parameters(desired_bl=1, update_bl_management=True, update_management=True), auto_scale=True, fast_lr=0.1, units_in_mbatch=False, construction_seed=construction_seed), forward=io_parameters(), backward=io_parameters(), update=up_parameters(desired_bl=5), **kwargs)
    if algorithm.lower() in ['mp', 'mixed-precision']:
        return DigitalRankUpdateRPUConfig(device=MixedPrecisionCompound(device=device(construction_seed=construction_seed)), forward=io_parameters(), backward=io_parameters(), update=up_parameters(), **kwargs)
    raise ArgumentError('Algorithm {} is not known'.format(algorithm))


@of("aihwkit.simulator.parameters.base.RPUConfigBase")
class RPUConfigBase:
    def as_bindings(self):
        return self

    def compatible_with(self, tile_class_name: str):
        return tile_class_name == self.tile_class.__name__

    def get_default_tile_module_class(self, out_size: int=0, in_size: int=0):
        return self.tile_class

    def create_tile(self, *args: Any, **kwargs: Any):
        return self.tile_class(*args, rpu_config=self, **kwargs)



@of("aihwkit.simulator.parameters.mapping.MappingParameter")
class MappingParameter:
    def compatible_with(self, mapping: 'MappingParameter'):
        if mapping == self:
            return True
        for key in fields(mapping):
            if key.name in ['weight_scaling_omega', 'weight_scaling_columnwise', 'weight_scaling_lr_compensation']:
                continue
            if mapping.__dict__[key.name] != self.__dict__[key.name]:
                return False
        return True



@of("aihwkit.simulator.parameters.mapping.MappableRPU")
class MappableRPU:
    def get_default_tile_module_class(self, out_size: int=0, in_size: int=0):
        if self.tile_array_class is None:
            ConfigError('RPUConfig does not support any tile array class')
        if self.tile_array_class is None or (self.mapping.max_input_size == 0 and self.mapping.max_output_size == 0):
            return self.tile_class
        if self.mapping.max_input_size < in_size or self.mapping.max_output_size < out_size:
            return self.tile_array_class
        return self.tile_class



@of("aihwkit.simulator.parameters.pre_post.InputRangeParameter")
class InputRangeParameter:
    def supports_manage_output_clipping(self, rpu_config: Any):
        if not hasattr(rpu_config, 'forward') or rpu_config.forward.is_perfect:
            return False
        if not isinstance(rpu_config.forward, IOParameters):
            return False
        if rpu_config.forward.noise_management != NoiseManagementType.NONE:
            return False
        if rpu_config.forward.bound_management != BoundManagementType.NONE:
            return False
        return True



@of("aihwkit.simulator.configs.devices.FloatingPointDevice")
class FloatingPointDevice:
    def requires_diffusion(self):
        return self.diffusion > 0.0

    def requires_decay(self):
        return self.lifetime > 0.0



@of("aihwkit.simulator.configs.devices.PulsedDevice")
class PulsedDevice:
    def requires_diffusion(self):
        return self.diffusion > 0.0

    def requires_decay(self):
        return self.lifetime > 0.0



@of("aihwkit.simulator.configs.devices.IdealDevice")
class IdealDevice:
    def requires_diffusion(self):
        return self.diffusion > 0.0

    def requires_decay(self):
        return self.lifetime > 0.0



@of("aihwkit.simulator.configs.compounds.UnitCell")
class UnitCell:
    def requires_diffusion(self):
        return any((dev.requires_diffusion() for dev in self.unit_cell_devices))

    def requires_decay(self):
        return any((dev.requires_decay() for dev in self.unit_cell_devices))



@of("aihwkit.simulator.configs.compounds.DigitalRankUpdateCell")
class DigitalRankUpdateCell:
    def requires_diffusion(self):
        return self.device.requires_diffusion()

    def requires_decay(self):
        return self.device.requires_decay()



@of("aihwkit.simulator.configs.configs.InferenceRPUConfig")
class InferenceRPUConfig:
    def compatible_with(self, tile_class_name: str):
        if tile_class_name in ['TorchInferenceTile']:
            return True
        return tile_class_name == self.tile_class.__name__



@of("aihwkit.simulator.parameters.enums.RPUDataType")
class RPUDataType:
    def as_torch(self):
        return _TORCH_DATA_TYPE_MAP[self.value]


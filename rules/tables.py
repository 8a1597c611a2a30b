"""Which functions carry which property: compared with their reference definitions in specs/ (see sa/equiv.py)."""
T = "simulator.tiles."
PER = T + "periphery.TileWithPeriphery"
SIM = T + "base.SimulatorTileWrapper"
RPU = T + "rpucuda.RPUCudaSimulatorTileWrapper"
MOD = T + "module.TileModule"
INF = T + "inference.InferenceTileWithPeriphery"
TIT = T + "inference_torch.TorchInferenceTile"
TST = T + "torch_tile.TorchSimulatorTile"
TRS = T + "transfer.TransferSimulatorTile"
TRT = T + "transfer.TorchTransferTile"
CST = T + "custom.CustomSimulatorTile"
CT = T + "custom.CustomTile"
ANA = T + "analog.AnalogTile"
ANP = T + "analog.AnalogTileWithoutPeriphery"
FPT = T + "floating_point.FloatingPointTile"
QTT = T + "quantized_inference_torch.QuantizedTorchInferenceTile"

NN = "nn.modules."
CNV = NN + "conv."
CNM = NN + "conv_mapped."
RNN = NN + "rnn."
OPT = "optim.analog_optimizer."
NOI = "inference.noise."
G = "inference.converter."
DLP = "simulator.digital_low_precision."
LPM = "nn.low_precision_modules."

AGREE = {
    "C06": {
        SIM: "_bind_shared_weights _get_tile_weights_ref _sync_analog_ctx_weights _copy_weights_to_shared_tensors _recreate_simulator_tile "
             "get_analog_state __getstate__ __setstate__ get_hidden_parameters set_hidden_parameters to cpu cuda device is_cuda",
        RPU: "ensure_shared_weights _get_extra_parameters _set_extra_parameters get_forward_parameters set_forward_parameters "
             "get_backward_parameters set_backward_parameters dump_extra load_extra",
        MOD: "__setstate__ _apply_without_context to get_analog_state_name _state_dict_hook state_dict _load_from_state_dict "
             "_load_state_dict_pre_hook _load_state_dict_post_hook",
        INF: "__getstate__", TIT: "_recreate_simulator_tile",
        TRS: "get_hidden_parameters get_hidden_parameter_names set_hidden_parameters dump_extra load_extra",
    },
    "C07": {SIM: "__init__", MOD: "compatible_with replace_with _load_state_dict_pre_hook", TRS: "__init__", TRT: "replace_with", ANA: "_create_simulator_tile",
            ANP: "_create_simulator_tile __init__", FPT: "_create_simulator_tile", CT: "_create_simulator_tile __init__", TIT: "_create_simulator_tile set_scales",
            TRT: "_create_simulator_tile __init__ replace_with", T + "inference.InferenceTile": "*"},
    "C09": {
        PER: "apply_out_scaling apply_input_range pre_forward post_forward joint_forward pre_backward post_backward backward pre_update update "
             "is_indexed set_indexed joint_forward_indexed backward_indexed update_indexed apply_quant_periphery_scales add_quant_periphery_bias",
        SIM: "get_tensor_view", RPU: "get_forward_out_bound",
        ANA: "forward", ANP: "forward joint_forward backward update", FPT: "forward", CT: "forward", TRT: "forward", TIT: "forward pre_forward",
        QTT: "forward", INF: "post_forward", T + "inference.InferenceTile": "forward",
    },
    "C10": {
        PER: "set_weights get_weights program_weights remap_weights read_weights apply_weight_scaling get_mapping_scales set_mapping_scales "
             "init_mapping_scales set_scales get_scales get_learned_out_scales init_learned_out_scales set_learned_out_scales",
        SIM: "_combine_weights _separate_weights", INF: "init_mapping_scales set_weights", TIT: "set_scales",
        CST: "set_weights get_weights set_weights_uniform_random", TST: "set_weights get_weights", TRS: "get_weights set_weights set_weights_uniform_random",
    },
    "C12": {T + "functions.AnalogFunction": "*", RPU: "__init__ ensure_shared_weights set_delta_weights reset_delta_weights post_update_step "
            "decay_weights drift_weights diffuse_weights reset_columns reset", PER: "set_learning_rate get_learning_rate",
            ANP: "set_learning_rate get_learning_rate", CST: "set_learning_rate get_learning_rate forward backward update set_config",
            T + "inference_torch.TorchInferenceTile": "post_update_step"},
    "C13": {PER: "init_input_processing set_input_range apply_input_range pre_forward pre_backward post_backward",
            T + "inference_torch.InputRangeForward": "*", TIT: "pre_forward post_update_step"},
    "C14": {INF: "_forward_drift_readout_tensor program_weights drift_weights post_forward post_update_step set_weights __getstate__ init_mapping_scales",
            TIT: "post_update_step"},
    "C16": {T + "analog_mvm.AnalogMVM": "*"},
    "C17": {TST: "__init__ remap_weights clip_weights set_config forward modify_weight check_rpu_config_support register_weight_hook",
            T + "utils.UniformQuantize": "*", TIT: "forward get_forward_parameters set_forward_parameters"},
    "C20": {T + "array.TileModuleArray": "*", T + "array.QuantizedTileModuleArray": "*"},
    "C21": {TRS: "*", TRT: "*"},
    "C11": {OPT + "AnalogOptimizerMixin": "*", OPT + "AnalogOptimizer": "*", "optim.context.AnalogContext": "__init__ reset has_gradient set_indexed"},
    "C18": {RNN + "cells": "*", RNN + "cells.AnalogVanillaRNNCell": "*", RNN + "cells.AnalogLSTMCell": "*", RNN + "cells.AnalogLSTMCellCombinedWeight": "*",
            RNN + "cells.AnalogGRUCell": "*", RNN + "layers.AnalogRNNLayer": "*", RNN + "layers.AnalogReverseRNNLayer": "*", RNN + "layers.AnalogBidirRNNLayer": "*",
            RNN + "rnn.ModularRNN": "*", RNN + "rnn.AnalogRNN": "*"},
    "C19": {"nn.conversion": "*", NN + "linear.AnalogLinear": "from_digital to_digital", NN + "linear_mapped.AnalogLinearMapped": "from_digital",
            NN + "container.AnalogSequential": "*", NN + "container.AnalogWrapper": "*",
            CNV + "AnalogConv1d": "from_digital to_digital", CNV + "AnalogConv2d": "from_digital to_digital", CNV + "AnalogConv3d": "from_digital to_digital",
            CNM + "AnalogConv1dMapped": "from_digital to_digital", CNM + "AnalogConv2dMapped": "from_digital to_digital",
            CNM + "AnalogConv3dMapped": "from_digital to_digital"},
    "C22": {k: "* -from_digital -to_digital"
            for k in (CNV + "_AnalogConvNd", CNV + "AnalogConv1d", CNV + "AnalogConv2d", CNV + "AnalogConv3d",
                      CNM + "_AnalogConvNdMapped", CNM + "AnalogConv1dMapped", CNM + "AnalogConv2dMapped", CNM + "AnalogConv3dMapped")},
    "C23": {NN + "base.AnalogLayerBase": "*", NN + "container.AnalogContainerBase": "*", NN + "linear.AnalogLinear": "__init__ reset_parameters forward",
            NN + "linear_mapped.AnalogLinearMapped": "__init__", NN + "rnn.rnn.AnalogRNN": "reset_parameters"},
    "C15": {k: "*" for k in (NOI + "base.BaseNoiseModel", NOI + "custom.StateIndependentNoiseModel", NOI + "hermes.HermesNoiseModel",
                             NOI + "pcm.PCMLikeNoiseModel", NOI + "pcm.CustomDriftPCMLikeNoiseModel", NOI + "reram.ReRamWan2022NoiseModel",
                             NOI + "reram.ReRamCMONoiseModel", NOI + "pcm", NOI + "hermes", G + "conductance", G + "fusion",
                             G + "base.BaseConductanceConverter", G + "conductance.SinglePairConductanceConverter",
                             G + "conductance.NPairConductanceConverter", G + "conductance.DualPairConductanceConverter",
                             G + "conductance.CustomPairConductanceConverter", G + "conductance.SingleDeviceConductanceConverter",
                             G + "fusion.FusionConductanceConverter", "inference.compensation.base.BaseDriftCompensation",
                             "inference.compensation.drift.GlobalDriftCompensation", "inference.compensation.drift.GlobalDriftCompensationWithExactReference",
                             "inference.compensation.drift.PerColumnDriftCompensation", "inference.utils")},
    "C24": {k: "*" for k in (
        [DLP + "quantizers." + x for x in ("RoundStraightThrough", "FloorStraightThrough", "QuantizerBase", "AsymmetricUniformQuantizer",
                                           "SymmetricUniformQuantizer", "QMethods")] + [DLP + "quantizers"]
        + [DLP + "range_estimators." + x for x in ("RangeEstimatorBase", "CurrentMinMaxEstimator", "AllMinMaxEstimator", "RunningMinMaxEstimator",
                                                   "MSE_Estimator", "CrossEntropyEstimator", "RangeEstimators")]
        + [DLP + x for x in ("quantization_manager.QuantizationManager", "hijacker.QuantizationHijacker", "base_quantized_classes.QuantizedModule",
                             "base_quantized_classes.QuantizedActivation", "base_quantized_classes.FP32Acts", "base_quantized_model.QuantizedModel",
                             "base_quantized_classes", "config_utils", "utils")]
        + [LPM + x for x in ("conversion_utils", "quantized_base_modules.QuantLinear", "quantized_base_modules.QuantConv2d",
                             "quantized_base_modules.QuantLayerNorm", "quantized_base_modules.QuantEmbedding", "quantized_base_modules.QuantBatchNorm2d",
                             "quantized_input_module.QuantizedInputModule", "quantization_states")]
        + ["nn.low_precision_conversion", "simulator.parameters.quantization.BaseQuantConfig", "simulator.parameters.quantization.ActivationQuantConfig",
           "simulator.parameters.quantization.WeightQuantConfig"])},
    "C25": {"inference.calibration.calibration": "*"},
    "C27": {G + "wpo": "*", G + "wpo.WeightProgrammingOptimizer": "*"},
    "C28": {"simulator.configs.**": "*", "simulator.presets.**": "*", "simulator.parameters.base.**": "*", "simulator.parameters.enums.**": "*",
            "simulator.parameters.inference.**": "*", "simulator.parameters.io.**": "*", "simulator.parameters.mapping.**": "*",
            "simulator.parameters.pre_post.**": "*", "simulator.parameters.runtime.**": "*", "simulator.parameters.training.**": "*"},
    "C29": {T + "analog_mvm_irdrop_t.AnalogMVMIRDropT": "*", T + "torch_tile_irdrop_t.TorchSimulatorTileIRDropT": "*"},
    "C30": {"experiments.**": "*"},
    "C31": {"cloud.**": "*"},
    "C32": {"utils.export.**": "*", "utils.fitting.**": "*", "utils.legacy.**": "*", "linalg.**": "*", "extension.**": "*", "utils.visualization.**": "*"},
    "C33": {"utils.analog_info.**": "*"},
    "C26": {"optim.context.AnalogContext": "*", "optim.weight_view": "*", "optim.weight_view.ReadOnlyWeightView": "*", "optim.weight_view.PlaceholderDataView": "*"},
}

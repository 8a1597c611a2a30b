"""Reference definitions of the analog summary (parsed, never run), confirmed by reading."""


@of("aihwkit.utils.analog_info.TileInfo")
class TileInfo:
    def __init__(self, tile: TileModule, is_mapped: bool):
        self.log_in_size = tile.in_size
        self.log_out_size = tile.out_size
        self.phy_in_size = tile.rpu_config.mapping.max_input_size
        self.phy_out_size = tile.rpu_config.mapping.max_output_size
        self.is_mapped = is_mapped
        max_space = self.phy_in_size * self.phy_out_size
        log_space = self.log_in_size * self.log_out_size
        self.utilization = log_space * 100 / max_space if is_mapped else 100

    def tile_summary_dict(self):
        phys_shape = 'N/A' if not self.is_mapped else (self.phy_out_size, self.phy_in_size)
        return {'log_shape': str((self.log_out_size, self.log_in_size)), 'phys_shape': str(phys_shape), 'utilization': self.utilization}



@of("aihwkit.utils.analog_info.LayerInfo")
class LayerInfo:
    def __init__(self, module: Module, rpu_config: Optional[RPUConfigBase]=None, input_size: Any=None, output_size: Any=None):
        self.module = module
        self.name = self.module.__class__.__name__
        self.isanalog = isinstance(self.module, AnalogLayerBase)
        self.num_tiles = 0 if not self.isanalog else len(list(self.module.analog_tiles()))
        self.tiles_info = self.set_tiles_info()
        self.kernel_size = None
        self.reuse_factor = 0
        self.input_size, self.output_size = (input_size, output_size)
        self.rpu_config = rpu_config
        self.set_kernel_size()
        self.calculate_reuse_factor()

    def __set_reuse_factor(self, reuse_factor: int):
        self.reuse_factor = reuse_factor

    def set_tiles_info(self):
        tiles_info = []
        is_mapped = isinstance(self.module, AnalogLinearMapped)
        is_mapped = is_mapped or isinstance(self.module, _AnalogConvNdMapped)
        if isinstance(self.module, AnalogLayerBase):
            for tile in self.module.analog_tiles():
                tiles_info.append(TileInfo(tile, is_mapped))
        return tiles_info

    def set_kernel_size(self):
        if hasattr(self.module, 'kernel_size'):
            self.kernel_size = self.module.kernel_size

    def calculate_reuse_factor(self):
        if isinstance(self.module, (AnalogLinear, AnalogLinearMapped)):
            ruf = reduce(operator.mul, self.input_size, 1) // int(self.input_size[-1])
            self.__set_reuse_factor(ruf)
        elif isinstance(self.module, (_AnalogConvNd, _AnalogConvNdMapped)):
            ruf = reduce(operator.mul, self.output_size, 1) // self.output_size[1]
            self.__set_reuse_factor(ruf)

    def tiles_summary_dict(self):
        tiles_summary = {}
        for tile in self.tiles_info:
            tiles_summary.update(tile.tile_summary_dict())
        return tiles_summary

    def layer_summary_dict(self):
        analog = 'analog' if self.isanalog else 'digital'
        return {'name': self.name, 'isanalog': analog, 'input_size': str(self.input_size) if self.input_size is not None else '-', 'output_size': str(self.output_size) if self.output_size is not None else '-', 'kernel_size': str(self.kernel_size) if self.kernel_size is not None else '-', 'num_tiles': self.num_tiles, 'reuse_factor': str(self.reuse_factor) if self.reuse_factor is not None else '-', 'log_shape': '-', 'phy_shape': '-', 'utilization': '-'}



@of("aihwkit.utils.analog_info.AnalogInfo")
class AnalogInfo:
    def __init__(self, model: Module, input_size: Any=None, rpu_config: Optional[RPUConfigBase]=None):
        self.model = model
        self.input_size = input_size
        self.rpu_config = rpu_config
        self.layer_summary = self.create_layer_summary()
        self.total_tile_number = self.calculate_num_tiles()
        self.total_nb_analog = self.calculate_num_analog()

    def register_hooks_recursively(self, module: Module, hook: Any):
        handles = []
        if len(list(module.children())) == 0:
            handles.append(module.register_forward_hook(hook))
        elif isinstance(module, AnalogLayerBase) and (not module.IS_CONTAINER) and (len([ch for ch in module.children() if isinstance(ch, AnalogLayerBase)]) == 0):
            handles.append(module.register_forward_hook(hook))
        else:
            for layer in module.children():
                handles.extend(self.register_hooks_recursively(layer, hook))
        return handles

    def create_layer_summary(self):
        layer_summary = []
    
        def get_size_hook(_: Module, _input: Any, _output: Any) -> None:
            nonlocal layer_summary
            input_size = list(_input[0].size())
            output_size = list(_output.size())
            layer_summary.append(LayerInfo(_, self.rpu_config, input_size, output_size))
        handles = self.register_hooks_recursively(self.model, get_size_hook)
        device = next(self.model.parameters()).device
        dummy_var = zeros(self.input_size).to(device)
        training_modules = [module for module in self.model.modules() if module.training]
        self.model.eval()
        try:
            with no_grad():
                self.model(dummy_var)
        finally:
            for module in training_modules:
                module.training = True
            for handle in handles:
                handle.remove()
        return layer_summary

    def calculate_num_tiles(self):
        total_tile_number = 0
        for x in self.layer_summary:
            total_tile_number += x.num_tiles
        return total_tile_number

    def calculate_num_analog(self):
        total_nb_analog = 0
        for x in self.layer_summary:
            total_nb_analog += 1 if x.isanalog else 0
        return total_nb_analog



@of("aihwkit.utils.analog_info.analog_summary")
def analog_summary(model: Module, input_size: Optional[Any]=None, rpu_config: Optional[RPUConfigBase]=None):
    results = AnalogInfo(model, input_size, rpu_config)
    return results

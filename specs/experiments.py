"""Reference definitions of experiments and their runners (parsed, never run), confirmed by reading."""


@of("aihwkit.experiments.experiments.base.Experiment")
class Experiment:
    def __init__(self):
        self.hooks: Dict = {Signals.EXPERIMENT_START: [], Signals.EXPERIMENT_END: [], Signals.EPOCH_START: [], Signals.EPOCH_END: [], Signals.TRAIN_EPOCH_START: [], Signals.TRAIN_EPOCH_END: [], Signals.TRAIN_EPOCH_BATCH_START: [], Signals.TRAIN_EPOCH_BATCH_END: [], Signals.VALIDATION_EPOCH_START: [], Signals.VALIDATION_EPOCH_END: [], Signals.VALIDATION_EPOCH_BATCH_START: [], Signals.VALIDATION_EPOCH_BATCH_END: [], Signals.INFERENCE_START: [], Signals.INFERENCE_END: [], Signals.INFERENCE_REPEAT_START: [], Signals.INFERENCE_REPEAT_END: []}
        self.results: Optional[Any] = None

    def add_hook(self, key: Signals, hook: Callable):
        self.hooks[key].append(hook)

    def clear_hooks(self):
        for key in self.hooks:
            self.hooks[key] = []

    def _call_hook(self, key: Signals, *args: Any, **kwargs: Any):
        ret = {}
        for hook in self.hooks[key]:
            hook_ret = hook(*args, **kwargs)
            if isinstance(hook_ret, dict):
                ret.update(hook_ret)
        return ret



@of("aihwkit.experiments.experiments.training.BasicTraining")
class BasicTraining:
    def __init__(self, dataset: Type[Dataset], model: Module, batch_size: int=64, loss_function: type=NLLLoss, epochs: int=30, learning_rate: float=0.05):
        self.dataset = dataset
        self.model = model
        self.batch_size = batch_size
        self.loss_function = loss_function
        self.epochs = epochs
        self.learning_rate = learning_rate
        super().__init__()

    def get_dataset_arguments(self, dataset: type):
        if dataset in (SVHN,):
            return ({'split': 'train'}, {'split': 'test'})
        return ({'train': True}, {'train': False})

    def get_dataset_transform(self, dataset: type):
        if dataset == FashionMNIST:
            mean = Tensor([0.286])
            std = Tensor([0.3205])
            transform = Compose([ToTensor(), Normalize(mean, std)])
        elif dataset == SVHN:
            mean = Tensor([0.4377, 0.4438, 0.4728])
            std = Tensor([0.198, 0.201, 0.197])
            transform = Compose([ToTensor(), Normalize(mean, std)])
        else:
            transform = Compose([ToTensor()])
        return transform

    def get_data_loaders(self, dataset: type, batch_size: int, max_elements_train: int=0, dataset_root: str='/tmp/datasets'):
        train_args, test_args = self.get_dataset_arguments(dataset)
        transform = self.get_dataset_transform(dataset)
        training_set = dataset(dataset_root, transform=transform, **train_args)
        validation_set = dataset(dataset_root, transform=transform, **test_args)
        if max_elements_train:
            training_set = Subset(training_set, range(max_elements_train))
            validation_set = Subset(validation_set, range(max_elements_train))
        training_loader = DataLoader(training_set, batch_size=batch_size, shuffle=True)
        validation_loader = DataLoader(validation_set, batch_size=batch_size, shuffle=True)
        return (training_loader, validation_loader)

    def get_optimizer(self, learning_rate: float, model: Module):
        optimizer = AnalogSGD(model.parameters(), lr=learning_rate)
        optimizer.regroup_param_groups(model)
        return optimizer

    def training_step(self, training_loader: DataLoader, model: Module, optimizer: Optimizer, loss_function: _Loss, device: torch_device):
        model.train()
        for images, labels in training_loader:
            if device:
                images = images.to(device)
                labels = labels.to(device)
            optimizer.zero_grad()
            output = model(images)
            loss = loss_function(output, labels)
            batch_image_count = labels.size(0)
            loss.backward()
            optimizer.step()
            self._call_hook(Signals.TRAIN_EPOCH_BATCH_END, batch_image_count, loss.item() * batch_image_count)

    def validation_step(self, validation_loader: DataLoader, model: Module, loss_function: _Loss, device: torch_device):
        model.eval()
        for images, labels in validation_loader:
            if device:
                images = images.to(device)
                labels = labels.to(device)
            prediction = model(images)
            loss = loss_function(prediction, labels)
            _, predicted = torch_max(prediction.data, 1)
            batch_image_count = labels.size(0)
            batch_correct_count = (predicted == labels).sum().item()
            self._call_hook(Signals.VALIDATION_EPOCH_BATCH_END, batch_image_count, batch_correct_count, loss.item() * batch_image_count)

    def train(self, training_loader: DataLoader, validation_loader: DataLoader, model: Module, optimizer: Optimizer, loss_function: _Loss, epochs: int, device: torch_device):
        results = []
        for epoch_number in range(epochs):
            self._call_hook(Signals.EPOCH_START, epoch_number)
            self._call_hook(Signals.TRAIN_EPOCH_START, epoch_number)
            self.training_step(training_loader, model, optimizer, loss_function, device)
            self._call_hook(Signals.TRAIN_EPOCH_END)
            self._call_hook(Signals.VALIDATION_EPOCH_START, epoch_number)
            self.validation_step(validation_loader, model, loss_function, device)
            self._call_hook(Signals.VALIDATION_EPOCH_END)
            epoch_results = {'epoch': epoch_number}
            epoch_results.update(self._call_hook(Signals.EPOCH_END))
            results.append(epoch_results)
        return results

    def run(self, max_elements: int=0, dataset_root: str='/tmp/data', device: Optional[torch_device]=None):
        training_loader, validation_loader = self.get_data_loaders(self.dataset, self.batch_size, max_elements_train=max_elements, dataset_root=dataset_root)
        optimizer = self.get_optimizer(self.learning_rate, self.model)
        model = self.model
        if device:
            model = model.to(device)
        results = self.train(training_loader, validation_loader, model, optimizer, self.loss_function(), self.epochs, device)
        self.model = model
        return results



@of("aihwkit.experiments.experiments.inferencing.download")
def download(url: str, destination: str):
    response = requests_get(url, timeout=30.0)
    with open(destination, 'wb') as file_:
        file_.write(response.content)


@of("aihwkit.experiments.experiments.inferencing.BasicInferencing")
class BasicInferencing:
    def __init__(self, dataset: Type[Dataset], model: Module, batch_size: int=10, loss_function: type=CrossEntropyLoss, weight_template_id: str='', inference_repeats: int=2, inference_time: int=86400, remap_weights: bool=True):
        self.dataset = dataset
        self.model = model
        self.batch_size = batch_size
        self.loss_function = loss_function
        self.inference_repeats = inference_repeats
        self.inference_time = inference_time
        self.weight_template_id = weight_template_id
        self.remap_weights = remap_weights
        super().__init__()

    def get_dataset_arguments(self, dataset: type):
        if dataset in (SVHN,):
            return ({'split': 'train'}, {'split': 'test'})
        return ({'train': True}, {'train': False})

    def get_dataset_transform(self, dataset: type):
        if dataset == FashionMNIST:
            transform = Compose([ToTensor()])
        elif dataset == SVHN:
            mean = Tensor([0.4377, 0.4438, 0.4728])
            std_dev = Tensor([0.198, 0.201, 0.197])
            transform = Compose([ToTensor(), Normalize(mean, std_dev)])
        else:
            transform = Compose([ToTensor()])
        return transform

    def get_data_loader(self, dataset: type, batch_size: int, max_elements: int=0, dataset_root: str='/tmp/datasets'):
        _, test_args = self.get_dataset_arguments(dataset)
        transform = self.get_dataset_transform(dataset)
        validation_set = dataset(dataset_root, transform=transform, **test_args)
        if max_elements > 0:
            validation_set = Subset(validation_set, range(max_elements))
        validation_loader = DataLoader(validation_set, batch_size=batch_size, shuffle=False)
        return validation_loader

    def get_model(self, weight_template_id: str, device: torch_device):
        model = deepcopy(self.model)
        if weight_template_id != '':
            if weight_template_id[0:1] == '.' or weight_template_id[0:1] == '/':
                template_path = weight_template_id
            else:
                template_dir = '/tmp/weight_templates'
                if weight_template_id.startswith('http'):
                    template_url = weight_template_id
                    template_path = template_dir + '/' + weight_template_id.replace('/', '_')
                else:
                    template_path = template_dir + '/' + weight_template_id + '.pth'
                    template_url = WEIGHT_TEMPLATE_URL + weight_template_id + '.pth'
                if not path.exists(template_dir):
                    mkdir(template_dir)
                if not path.exists(template_path):
                    download(template_url, template_path)
            if path.exists(template_path):
                state_dict = load(template_path, map_location=device, weights_only=False)
                state_dict, _ = convert_legacy_checkpoint(state_dict, model)
                model.load_state_dict(state_dict, load_rpu_config=False)
            else:
                print('Checkpoint file: ', template_path, ' does not exist.')
            if self.remap_weights:
                model.remap_analog_weights()
        return model.to(device)

    def inferencing_step(self, validation_loader: DataLoader, model: Module, loss_function: _Loss, t_inference_list: list, device: torch_device):
        model.eval()
        model.program_analog_weights()
        n_inference = len(t_inference_list)
        infer_accuracy = zeros(n_inference)
        infer_error = zeros(n_inference)
        infer_loss = zeros(n_inference)
        for idx, t_inference in enumerate(t_inference_list):
            model.drift_analog_weights(t_inference)
            predicted_ok = 0
            total_images = 0
            total_loss = 0
            for images, labels in validation_loader:
                images = images.to(device)
                labels = labels.to(device)
                predict = model(images)
                loss = loss_function(predict, labels)
                n_images = images.size(0)
                total_images += n_images
                total_loss += loss.item() * n_images
                _, predicted = torch_max(predict.data, 1)
                predicted_ok += (predicted == labels).sum().item()
            accuracy_post = predicted_ok / total_images * 100.0
            infer_accuracy[idx] = accuracy_post
            infer_error[idx] = 100.0 - accuracy_post
            infer_loss[idx] = total_loss / total_images
        return (infer_accuracy, infer_error, infer_loss)

    def inference(self, validation_loader: DataLoader, model: Module, loss_function: _Loss, inference_repeats: int, inference_time: int, device: torch_device, n_inference_times: int=10):
        if device:
            model = model.to(device)
        t_inference_list = [0.0] + logspace(0, log10(float(inference_time)), n_inference_times - 1).tolist()
        repeat_results = {}
        accuracy_array = array([], 'float')
        error_array = array([], 'float')
        loss_array = array([], 'float')
        for repeat in range(inference_repeats):
            self._call_hook(Signals.INFERENCE_REPEAT_START, repeat)
            infer_accuracy, infer_error, infer_loss = self.inferencing_step(validation_loader, model, loss_function, t_inference_list, device)
            accuracy_array = concatenate([accuracy_array, infer_accuracy])
            error_array = concatenate([error_array, infer_error])
            loss_array = concatenate([loss_array, infer_loss])
            shape = (repeat + 1, n_inference_times)
            repeat_results = self._call_hook(Signals.INFERENCE_REPEAT_END, array(t_inference_list), accuracy_array.reshape(shape).mean(axis=0), accuracy_array.reshape(shape).std(axis=0), error_array.reshape(shape).mean(axis=0), loss_array.reshape(shape).mean(axis=0), inference_repeats)
        return deepcopy(repeat_results)

    def _print_rpu_fields(self, model: Module):
        print('\n>>> inferenceworker.py: STARTING _print_rpu_fields() ')
        for name, module in model.named_modules():
            if not isinstance(module, AnalogLayerBase):
                continue
            print(f'RPUConfig of module {name}: ')
            tile = next(module.analog_tiles())
            print(tile.rpu_config)
            print(tile.tile)
            print('-------------')
        print('\n>>> inferenceworker.py: ENDING _print_rpu_fields() ')

    def run(self, max_elements: int=0, dataset_root: str='/tmp/data', device: Optional[torch_device]=None):
        validation_loader = self.get_data_loader(self.dataset, self.batch_size, max_elements=max_elements, dataset_root=dataset_root)
        model = self.get_model(self.weight_template_id, device)
        self._print_rpu_fields(model)
        result = self.inference(validation_loader, model, self.loss_function(), self.inference_repeats, self.inference_time, device)
        self.model = model
        return result



@of("aihwkit.experiments.runners.base.Runner")
class Runner:
    def run(self, experiment: Experiment, **kwargs: Any):
        raise NotImplementedError



@of("aihwkit.experiments.runners.local.LocalRunner")
class LocalRunner:
    def __init__(self, device: Optional[torch_device]=None):
        self.device = device

    def run(self, experiment: BasicTraining, max_elements_train: int=0, dataset_root: str='/tmp/datasets', stdout: bool=False):
        metric = LocalMetric(stdout=stdout)
        experiment.clear_hooks()
        experiment.add_hook(Signals.EPOCH_START, metric.receive_epoch_start)
        experiment.add_hook(Signals.EPOCH_END, metric.receive_epoch_end)
        experiment.add_hook(Signals.TRAIN_EPOCH_END, metric.receive_train_epoch_end)
        experiment.add_hook(Signals.TRAIN_EPOCH_BATCH_END, metric.receive_train_epoch_batch_end)
        experiment.add_hook(Signals.VALIDATION_EPOCH_BATCH_END, metric.receive_validation_epoch_batch_end)
        experiment.add_hook(Signals.VALIDATION_EPOCH_END, metric.receive_validation_epoch_end)
        if experiment.dataset == FashionMNIST:
            _ = experiment.dataset(dataset_root, download=True)
        elif experiment.dataset == SVHN:
            _ = experiment.dataset(dataset_root, download=True, split='train')
            _ = experiment.dataset(dataset_root, download=True, split='test')
        return experiment.run(max_elements_train, dataset_root, self.device)



@of("aihwkit.experiments.runners.i_local.InferenceLocalRunner")
class InferenceLocalRunner:
    def __init__(self, device: Optional[torch_device]=None):
        self.device = device

    def run(self, experiment: BasicInferencing, max_elements: int=0, dataset_root: str='/tmp/datasets', stdout: bool=False):
        metric = InferenceLocalMetric(stdout=stdout)
        experiment.clear_hooks()
        experiment.add_hook(Signals.INFERENCE_REPEAT_START, metric.receive_repeat_start)
        experiment.add_hook(Signals.INFERENCE_REPEAT_END, metric.receive_repeat_end)
        if experiment.dataset == FashionMNIST:
            _ = experiment.dataset(dataset_root, download=True)
        elif experiment.dataset == SVHN:
            _ = experiment.dataset(dataset_root, download=True, split='train')
            _ = experiment.dataset(dataset_root, download=True, split='test')
        return experiment.run(max_elements, dataset_root, self.device)



@of("aihwkit.experiments.runners.cloud.CloudRunner")
class CloudRunner:
    def __init__(self, api_url: Optional[str]=None, api_token: Optional[str]=None, verify: bool=True):
        if not api_url or not api_token:
            config = ClientConfiguration()
            api_url = api_url or config.url
            api_token = api_token or config.token
            if not api_url or not api_token:
                raise CredentialsError('No credentials could be found')
        self.api_url = api_url
        self.api_token = api_token
        self.session = ApiSession(self.api_url, self.api_token, verify)
        self.api_client = ApiClient(self.session)

    def get_cloud_experiment(self, id_: str):
        return self.api_client.experiment_get(id_)

    def list_cloud_experiments(self):
        return self.api_client.experiments_list()

    def run(self, experiment: BasicTraining, name: str='', device: str='gpu', **_: Any):
        if not name:
            name = 'aihwkit cloud experiment ({}, {} layers)'.format(experiment.dataset.__name__, len(experiment.model))
        return self.api_client.experiment_create(experiment, name, device)



@of("aihwkit.experiments.runners.i_cloud.InferenceCloudRunner")
class InferenceCloudRunner:
    def __init__(self, api_url: Optional[str]=None, api_token: Optional[str]=None, verify: bool=False):
        if not api_url or not api_token:
            config = ClientConfiguration()
            api_url = api_url or config.url
            api_token = api_token or config.token
            if not api_url or not api_token:
                raise CredentialsError('No credentials could be found')
        self.api_url = api_url
        self.api_token = api_token
        self.session = ApiSession(self.api_url, self.api_token, verify)
        self.api_client = InferenceApiClient(self.session)

    def get_cloud_experiment(self, id_: str):
        return self.api_client.experiment_get(id_)

    def list_cloud_experiments(self):
        return self.api_client.experiments_list()

    def run(self, experiment: BasicInferencing, analog_info: Dict, noise_model_info: Dict, name: str='', device: str='gpu', **_: Any):
        if not name:
            name = 'aihwkit inference cloud experiment ({}, {} layers)'.format(experiment.dataset.__name__, len(experiment.model))
        return self.api_client.experiment_create(experiment, analog_info, noise_model_info, name, device)



@of("aihwkit.experiments.runners.metrics.LocalMetric")
class LocalMetric:
    def __init__(self, stdout: bool=True):
        self.epochs: List[Dict] = []
        self.current_epoch: Dict = {}
        self.stdout = stdout

    def receive_epoch_start(self, epoch: int):
        self.current_epoch = {'number': epoch, 'start_time': datetime.utcnow(), 'total_loss': 0, 'training_images': 0, 'validation_images': 0, 'validation_correct': 0, 'validation_loss': 0}

    def receive_train_epoch_batch_end(self, total: int, train_loss: float):
        self.current_epoch['training_images'] += total
        self.current_epoch['total_loss'] += train_loss

    def receive_validation_epoch_batch_end(self, total: int, correct: int, validation_loss: float):
        self.current_epoch['validation_images'] += total
        self.current_epoch['validation_correct'] += int(correct)
        self.current_epoch['validation_loss'] += validation_loss

    def receive_train_epoch_end(self):
        if not self.stdout:
            return
        print('Epoch: {}, loss: {:.8f}'.format(self.current_epoch['number'], self.current_epoch['total_loss'] / self.current_epoch['training_images']))

    def receive_validation_epoch_end(self):
        if not self.stdout:
            return
        print('Number of images: {}, accuracy: {:.6%}, validation loss: {:.8f}'.format(self.current_epoch['validation_images'], self.current_epoch['validation_correct'] / self.current_epoch['validation_images'], self.current_epoch['validation_loss'] / self.current_epoch['validation_images']))

    def receive_epoch_end(self):
        end_time = datetime.utcnow()
        time_epoch = (end_time - self.current_epoch['start_time']).total_seconds()
        if self.stdout:
            print('Time for epoch {}: {:.4}s'.format(self.current_epoch['number'], time_epoch))
        self.epochs.append(self.current_epoch)
        return {'epoch': self.current_epoch['number'], 'time_epoch': time_epoch, 'accuracy': self.current_epoch['validation_correct'] / self.current_epoch['validation_images'], 'train_loss': self.current_epoch['total_loss'] / self.current_epoch['training_images'], 'valid_loss': self.current_epoch['validation_loss'] / self.current_epoch['validation_images']}



@of("aihwkit.experiments.runners.i_metrics.InferenceLocalMetric")
class InferenceLocalMetric:
    def __init__(self, stdout: bool=False):
        self.current_repeat: Dict = {}
        self.time_init = datetime.utcnow()
        self.stdout = stdout

    def receive_repeat_start(self, repeat: int):
        self.current_repeat = {'number': repeat, 'inference_results': []}

    def receive_repeat_end(self, t_inference_array: list, avg_acc_arr: list, std_acc_arr: list, avg_err_arr: list, avg_loss_arr: list, inference_repeats: int):
        inf_results = []
        n_inference = len(t_inference_array)
        for i in range(n_inference):
            new_dict = {'t_inference': t_inference_array[i], 'avg_accuracy': avg_acc_arr[i], 'std_accuracy': std_acc_arr[i], 'avg_error': avg_err_arr[i], 'avg_loss': avg_loss_arr[i]}
            inf_results.append(new_dict)
        repeat = self.current_repeat['number'] + 1
        time_elapsed = (datetime.utcnow() - self.time_init).total_seconds()
        is_partial = bool(repeat < inference_repeats)
        partial = {'inference_runs': {'inference_repeat': repeat, 'is_partial': is_partial, 'time_elapsed': time_elapsed, 'inference_results': inf_results}}
        if self.stdout:
            print('{}'.format(json.dumps(partial)))
        return partial



value("aihwkit.experiments.experiments.inferencing.WEIGHT_TEMPLATE_URL", 'https://github.com/IBM-AI-Hardware-Center/Composer/raw/main/')

@of("rpucuda.rng.swap__25")
def swap__25(a, b):
    a.gauss_list_size_, b.gauss_list_size_ = (b.gauss_list_size_, a.gauss_list_size_)
    a.seed_, b.seed_ = (b.seed_, a.seed_)
    a.gauss_numbers_list_, b.gauss_numbers_list_ = (b.gauss_numbers_list_, a.gauss_numbers_list_)


@of("rpucuda.rng.RNG")
class RNG:
    gauss_numbers_list_ = None
    def sampleUniform__1(self):
        return rand() / 2147483647

    def ctor__2(self, rseed):
        self.gauss_list_size_ = 32768
        self.setSeed(rseed)

    def ctor__1(self):
        self.ctor__2(0)

    def generateNewList__1(self):
        self.generateNewList__2(self.gauss_list_size_)

    def generateNewList__2(self, list_size):
        seed = self.seed_
        if seed == 0:
            seed = system_clock.now().time_since_epoch().count()
        generator = make_default_random_engine(seed)
        random_dist = make_normal_distribution()
        nrnd = std_bind(random_dist, generator)
        numbers = make_float(list_size)
        for i in range(list_size):
            numbers[i] = nrnd()
        self.gauss_list_size_ = list_size
        self.gauss_numbers_list_ = numbers

    def randomizeSeed(self):
        seed = system_clock.now().time_since_epoch().count()
        srand(seed)
        fast_srand(rand() % 2147483647)
        self.generateNewList__1()
        self.seed_ = 0

    def setSeed(self, seed):
        self.seed_ = seed
        if seed == 0:
            self.randomizeSeed()
        else:
            srand(seed)
            fast_srand(seed)
            self.generateNewList__1()

    def sample(self):
        return rand()

    def sampleUniform__2(self, min_max):
        return (rand() / 2147483647 - 0.5) * 2 * min_max

    def sampleUniform__3(self, min_value, max_value):
        return rand() / 2147483647 * (max_value - min_value) + min_value

    def sampleGauss(self):
        return self.gauss_numbers_list_[rand() % self.gauss_list_size_]



@of("rpucuda.rng.RealWorldRNG")
class RealWorldRNG:
    seed_ = None
    udist_ = None
    ndist_ = None
    def ctor__2(self, seed):
        self.setSeed(seed)

    def ctor__1(self):
        self.ctor__2(0)

    def setSeed(self, seed):
        if not seed != 0:
            self.seed_ = system_clock.now().time_since_epoch().count()
        else:
            self.seed_ = seed
        self.gen_ = make_default_random_engine(self.seed_)

    def sampleGauss(self):
        return self.ndist_(self.gen_)

    def sampleUniform__1(self):
        return self.udist_(self.gen_)


A='randomness.*'
H='neps/optimizers/multi_fidelity/successive_halving.py'
G='neps/optimizers/grid_search/optimizer.py'
RS='neps/optimizers/random_search/optimizer.py'
IF='neps/optimizers/multi_fidelity/ifbo.py'
C='neps/search_spaces/hyperparameters/categorical.py'
SS='neps/search_spaces/search_space.py'
F='neps/search_spaces/hyperparameters/float.py'
SP='neps/optimizers/multi_fidelity/sampling_policy.py'
SA='neps/sampling/samplers.py'
HB='neps/optimizers/multi_fidelity/hyperband.py'
MUTS=[
('default_rng',C,"self.choices[np.random.choice(indices)]","self.choices[np.random.default_rng().choice(indices)]",A,'V'),
('grid none',G,"random.Random(0 if self.seed is None else self.seed)","random.Random(self.seed)",A,'V'),
('grid or',G,"random.Random(0 if self.seed is None else self.seed)","random.Random(self.seed or 0)",A,'-'),
('grid ref',G,"        rng = random.Random(0 if self.seed is None else self.seed)\n","        seed = 0\n        if self.seed is not None:\n            seed = self.seed\n        rng = random.Random(seed)\n",A,'-'),
('ifbo time',[(IF,"import numpy as np","import time\nimport numpy as np"),(IF,"rng = np.random.RandomState(len(trials))","rng = np.random.RandomState(int(time.time()))")],None,None,A,'V'),
('ifbo none',IF,"rng = np.random.RandomState(len(trials))","rng = np.random.RandomState()",A,'V'),
('ifbo default_rng',IF,"rng = np.random.RandomState(len(trials))","rng = np.random.RandomState(hash(str(len(trials))) % 1000)",A,'V'),
('sysrandom',H,"elif random.random() < self.random_interleave_prob:","elif random.SystemRandom().random() < self.random_interleave_prob:",A,'V'),
('reseed',RS,"        config = self.pipeline_space.sample(","        import torch\n        torch.manual_seed(len(trials))\n        config = self.pipeline_space.sample(",A,'V'),
('reseed2',RS,"        config = self.pipeline_space.sample(","        import numpy\n        numpy.random.seed(len(trials))\n        config = self.pipeline_space.sample(",A,'V'),
('own rng attr',F,"            value = np.random.uniform(low=low, high=high)","            if not hasattr(self, '_rng'):\n                self._rng = np.random.default_rng(1)\n            value = self._rng.uniform(low=low, high=high)",A,'V'),
('own rng attr2',SP,"        if np.random.uniform() < self.fraction_from_prior:","        if self.rng.uniform() < self.fraction_from_prior:",A,'-'),
('module rng',F,"class FloatParameter","_RNG = np.random.default_rng(3)\n\n\nclass FloatParameter",A,'V'),
('set choice',SS,"chosen_hp_name = np.random.choice(list(non_fidelity_mutatable_params))","chosen_hp_name = np.random.choice(list(set(non_fidelity_mutatable_params)))",A,'V'),
('sorted set',SS,"chosen_hp_name = np.random.choice(list(non_fidelity_mutatable_params))","chosen_hp_name = np.random.choice(sorted(set(non_fidelity_mutatable_params)))",A,'-'),
('set loop',SS,"                        sampled_hps[name] = hp.sample(user_priors=user_priors)","                        sampled_hps.update({k: self.hyperparameters[k].sample(user_priors=user_priors) for k in {name}})",A,'V'),
('draw in init',H,"        self.rung_histories: dict[","        self._offset = np.random.randint(10)\n        self.rung_histories: dict[",A,'V'),
('draw in init hb',HB,"        self.current_sh_bracket: int = 0","        self.current_sh_bracket: int = np.random.randint(3)",A,'V'),
('draw in init2',RS,"        self.seed = seed","        self.seed = seed\n        self._first = pipeline_space.sample()",A,'V'),
('sobol gen',SA,"            dimension=self.ndim, scramble=self.scramble, seed=_seed","            dimension=self.ndim, scramble=self.scramble, seed=0",A,'-'),
('ref random module',H,"elif random.random() < self.random_interleave_prob:","elif np.random.random() < self.random_interleave_prob:",A,'-'),
]

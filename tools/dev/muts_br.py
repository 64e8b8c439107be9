S='neps/optimizers/multi_fidelity/successive_halving.py'
H='neps/optimizers/multi_fidelity/hyperband.py'
PB='neps/optimizers/multi_fidelity_prior/priorband.py'
AP='neps/optimizers/multi_fidelity_prior/async_priorband.py'
A='brackets.rungs brackets.drawn'
L="""np.floor(
            np.round(np.log(self.max_budget / self.min_budget) / np.log(self.eta), 8)
        ).astype(int)"""
MUTS=[
('rung off by one',S,"for i in reversed(range(nrungs)):","for i in reversed(range(1, nrungs)):",A,'V'),
('rung shift',S,"rung_map[i + s] = (","rung_map[i] = (",A,'V'),
('no int',S,"int(_max_budget)\n                if","_max_budget\n                if",A,'V'),
('int of all',S,"                if isinstance(self.pipeline_space.fidelity, IntegerParameter)\n                else _max_budget\n","",A,'V'),
('minus eta',S,"_max_budget /= self.eta","_max_budget //= self.eta",A,'V'),
('before',S,"        _max_budget = self.max_budget\n        rung_map = {}","        _max_budget = self.max_budget / self.eta\n        rung_map = {}",A,'V'),
('ceil',S,L,L.replace('floor','ceil'),A,'V'),
('noround',S,L,"np.floor(np.log(self.max_budget / self.min_budget) / np.log(self.eta)).astype(int)",A,'V'),
('loop ref',S,L,"self._n_halvings()",A,'B'),
('s max',S,"s_max = self.stopping_rate_limit + 1","s_max = self.stopping_rate_limit",A,'V'),
('n config',S,"_s = self.stopping_rate_limit - s","_s = self.stopping_rate_limit",A,'V'),
('n floor',S,"_n_config //= self.eta","_n_config //= 2",A,'V'),
('cfg shift',S,"config_map[i + s] = int(_n_config)","config_map[i] = int(_n_config)",A,'V'),
('cfg s0',S,"self._get_config_map(self.early_stopping_rate)","self._get_config_map(0)",A,'V'),
('rung s0',S,"self._get_rung_map(self.early_stopping_rate)","self._get_rung_map()",A,'V'),
('pol eta',S,"promotion_policy(self.eta)","promotion_policy(3)",A,'V'),
('minrung',S,"self.min_rung = min(list(self.rung_map.keys()))","self.min_rung = 0",A,'V'),
('minrung ref',S,"self.min_rung = min(list(self.rung_map.keys()))","self.min_rung = min(self.rung_map)",A,'-'),
('minrung ref2',S,"self.min_rung = min(list(self.rung_map.keys()))","self.min_rung = self.early_stopping_rate",A,'-'),
('rung ref',S,"""        for i in reversed(range(nrungs)):
            rung_map[i + s] = (
                int(_max_budget)
                if isinstance(self.pipeline_space.fidelity, IntegerParameter)
                else _max_budget
            )
            _max_budget /= self.eta
        return rung_map""","""        for rung in range(self.stopping_rate_limit, s - 1, -1):
            value = _max_budget / self.eta ** (self.stopping_rate_limit - rung)
            if isinstance(self.pipeline_space.fidelity, IntegerParameter):
                value = int(value)
            rung_map[rung] = value
        return rung_map""",A,'-'),
('cfg ref',S,"""        for i in range(nrungs):
            config_map[i + s] = int(_n_config)
            _n_config //= self.eta
        return config_map""","""        return {i + s: int(_n_config // self.eta**i) for i in range(nrungs)}""",A,'-'),
('hb no update',H,"            args.update({\"early_stopping_rate\": s})\n            self.sh_brackets[s] = SuccessiveHalving(**args)","            self.sh_brackets[s] = SuccessiveHalving(**args)",A,'V'),
('hb range',H,"for s in range(self.max_rung + 1):\n            args.update({\"early_stopping_rate\": s})\n            self.sh","for s in range(self.max_rung):\n            args.update({\"early_stopping_rate\": s})\n            self.sh",A,'V'),
('hb comp ref',H,"            args.update({\"early_stopping_rate\": s})\n            self.sh_brackets[s] = SuccessiveHalving(**args)","            self.sh_brackets[s] = SuccessiveHalving(**{**args, \"early_stopping_rate\": s})",A,'-'),
('hb off',H,"self.sh_brackets[s] = SuccessiveHalving(**args)","self.sh_brackets[self.max_rung - s] = SuccessiveHalving(**args)",A,'V'),
('async comp ref',H,"""        self.sh_brackets: dict[int, SuccessiveHalvingBase] = {}
        for s in range(self.max_rung + 1):
            args.update({"early_stopping_rate": s})
            # key difference from vanilla HB where it runs synchronous SH brackets
            self.sh_brackets[s] = AsynchronousSuccessiveHalving(**args)""","""        self.sh_brackets: dict[int, SuccessiveHalvingBase] = {
            s: AsynchronousSuccessiveHalving(**args, early_stopping_rate=s) for s in range(self.max_rung + 1)
        }""",A,'-'),
('drop eta',H,"            \"eta\": eta,\n            \"initial_design_type\": initial_design_type,\n            \"use_priors\": use_priors,\n            \"sampling_policy\": sampling_policy,\n            \"promotion_policy\": promotion_policy,\n            \"loss_value_on_error\": loss_value_on_error,\n            \"cost_value_on_error\": cost_value_on_error,\n            \"ignore_errors\": ignore_errors,\n            \"prior_confidence\": prior_confidence,\n            \"random_interleave_prob\": random_interleave_prob,\n            \"sample_default_first\": sample_default_first,\n            \"sample_default_at_target\": sample_default_at_target,\n        }\n        super().__init__(**args)\n        # overwrite","            \"initial_design_type\": initial_design_type,\n            \"use_priors\": use_priors,\n            \"sampling_policy\": sampling_policy,\n            \"promotion_policy\": promotion_policy,\n            \"loss_value_on_error\": loss_value_on_error,\n            \"cost_value_on_error\": cost_value_on_error,\n            \"ignore_errors\": ignore_errors,\n            \"prior_confidence\": prior_confidence,\n            \"random_interleave_prob\": random_interleave_prob,\n            \"sample_default_first\": sample_default_first,\n            \"sample_default_at_target\": sample_default_at_target,\n        }\n        super().__init__(eta=eta, **args)\n        # overwrite",A,'V'),
('custom default',H,"        for _, sh in self.sh_brackets.items():\n            sh.sampling_args = self.sampling_args\n","",A,'V'),
('odds K',H,"K = self.max_rung\n","K = self.max_rung + 1\n",A,'V'),
('odds flip',H,"self.eta ** (K - s) * (K + 1) / (K - s + 1) for","self.eta ** s * (K + 1) / (K - s + 1) for",A,'V'),
('odds ref',H,"np.array(bracket_probs) / sum(bracket_probs)","np.asarray(bracket_probs) / np.sum(bracket_probs)",A,'-'),
('odds ref2',H,"        bracket_probs = np.array(bracket_probs) / sum(bracket_probs)\n        return int(np.random.choice(range(self.max_rung + 1), p=bracket_probs))","        total = sum(bracket_probs)\n        probs = [w / total for w in bracket_probs]\n        return int(np.random.choice(list(self.sh_brackets), p=probs))",A,'-'),
('odds ref3',H,"self.eta ** (K - s) * (K + 1) / (K - s + 1) for","self.eta ** (K - s) / (K - s + 1) for",A,'-'),
('odds none',H,"return int(np.random.choice(range(self.max_rung + 1), p=bracket_probs))","return int(np.random.choice(range(self.max_rung + 1)))",A,'V'),
('odds dom',H,"return int(np.random.choice(range(self.max_rung + 1), p=bracket_probs))","return int(np.random.choice(range(1, self.max_rung + 2), p=bracket_probs))",A,'V'),
('drawn other',H,"        bracket_to_run = self._get_bracket_to_run()\n        config,","        bracket_to_run = self._get_bracket_to_run()\n        bracket_to_run = min(bracket_to_run, self.max_rung - 1)\n        config,",A,'V'),
('drawn inc',H,"        config, config_id, previous_config_id = self.sh_brackets[\n            bracket_to_run\n        ]","        config, config_id, previous_config_id = self.sh_brackets[\n            self.max_rung - bracket_to_run\n        ]",A,'V'),
('ret swap',H,"            bracket_to_run\n        ].get_config_and_ids()\n        return config, config_id, previous_config_id","            bracket_to_run\n        ].get_config_and_ids()\n        return config, previous_config_id, config_id",A,'V'),
('ret direct',H,"        config, config_id, previous_config_id = self.sh_brackets[\n            bracket_to_run\n        ].get_config_and_ids()\n        return config, config_id, previous_config_id","        return self.sh_brackets[bracket_to_run].get_config_and_ids()",A,'-'),
('mobster',H,"            sh.sample_new_config = self.sample_new_config  # type: ignore\n","",A,'V'),
('pb args',PB,"            sh.sampling_args = self.sampling_args\n","",A,'V'),
('ap policy',AP,"            self.sh_brackets[s].sampling_policy = self.sampling_policy\n","",A,'V'),
('ap model',AP,"            self.sh_brackets[s].sample_new_config = self.sample_new_config  # type: ignore\n","",A,'V'),
('ap range',AP,"for s in range(self.max_rung + 1):\n            args","for s in range(self.max_rung):\n            args",A,'V'),
]

S='neps/search_spaces/search_space.py'
A='searchspace.*'
CL="**{k: v.clone() for k, v in self.hyperparameters.items()}"
MUTS=[
('two fid',S,"                if _fidelity_param is not None:\n                    raise ValueError(","                if _fidelity_param is not None and _fidelity_name == name:\n                    raise ValueError(",A,'V'),
('fid cat',S,"                if not isinstance(hp, NumericalParameter):","                if isinstance(hp, ConstantParameter):",A,'V'),
('fid falsy',S,"            if hp.is_fidelity:\n                if _f","            if hp.is_fidelity and isinstance(hp, FloatParameter):\n                if _f",A,'V'),
('unsorted',S,"_hyperparameters = sorted(hyperparameters.items(), key=lambda x: x[0])","_hyperparameters = list(hyperparameters.items())",A,'V'),
('sorted ref',S,"_hyperparameters = sorted(hyperparameters.items(), key=lambda x: x[0])","_hyperparameters = [(k, hyperparameters[k]) for k in sorted(hyperparameters)]",A,'-'),
('numerical fid',S,"            if isinstance(hp, IntegerParameter | FloatParameter) and not hp.is_fidelity\n","            if isinstance(hp, IntegerParameter | FloatParameter)\n",A,'V'),
('prior and',S,"            if isinstance(hp, ParameterWithPrior) and hp.has_prior:\n                _has_prior = True","            if isinstance(hp, ParameterWithPrior):\n                _has_prior = hp.has_prior",A,'V'),
('prior elif',S,"            if isinstance(hp, ParameterWithPrior) and hp.has_prior:\n                _has_prior","            elif isinstance(hp, ParameterWithPrior) and hp.has_prior:\n                _has_prior",A,'V'),
('prior ref',S,"self.has_prior: bool = _has_prior","self.has_prior: bool = any(isinstance(hp, ParameterWithPrior) and hp.has_prior for _, hp in _hyperparameters)",A,'-'),
('fid ref',S,"        self.hyperparameters: dict[str, Parameter] = dict(_hyperparameters)","        self.hyperparameters: dict[str, Parameter] = {k: v for k, v in _hyperparameters}",A,'-'),
('fids ref',S,"            self.fidelities = {_fidelity_name: _fidelity_param}","            self.fidelities = {k: hp for k, hp in _hyperparameters if hp.is_fidelity}",A,'-'),
('clone shares consts',S,CL,"**{k: v if isinstance(v, ConstantParameter) else v.clone() for k, v in self.hyperparameters.items()}",A,'V'),
('clone ref loop',S,"        new_copy = self.__class__(\n            "+CL+"\n        )","        hps = {}\n        for k in self.hyperparameters:\n            hps[k] = self.hyperparameters[k].clone()\n        new_copy = SearchSpace(**hps)",A,'-'),
('serialize default',S,"serialized_config[name] = hp.serialize_value(hp.value)","serialized_config[name] = hp.serialize_value(hp.value or hp.default)",A,'V'),
('serialize fid',S,"            if hp.value is None:\n                raise","            if hp.is_fidelity:\n                continue\n            if hp.value is None:\n                raise",A,'V'),
('serialize none',S,"            if hp.value is None:\n                raise ValueError(","            if hp.value is None and not hp.is_fidelity:\n                raise ValueError(",A,'V'),
('serialize ref',S,"            serialized_config[name] = hp.serialize_value(hp.value)\n        return serialized_config","            val = hp.value\n            serialized_config.update({name: hp.serialize_value(val)})\n        return serialized_config",A,'-'),
('from_dict self',S,"        new = self.clone()\n        for name, val","        new = self\n        for name, val",A,'V'),
('from_dict fid',S,"        for name, val in config.items():\n            new.","        for name, val in config.items():\n            if new.hyperparameters[name].is_fidelity:\n                continue\n            new.",A,'V'),
('from_dict falsy',S,"        for name, val in config.items():\n            new.","        for name, val in config.items():\n            if not val:\n                continue\n            new.",A,'V'),
('from_dict order',S,"        for name, val in config.items():\n            new.hyperparameters[name].load_from(val)","        for hp, val in zip(new.hyperparameters.values(), config.values()):\n            hp.load_from(val)",A,'V'),
('from_dict ref',S,"        for name, val in config.items():\n            new.hyperparameters[name].load_from(val)","        for name in config:\n            hp = new[name]\n            hp.load_from(config[name])",A,'-'),
('sample fid',S,"            if hp.is_fidelity and ignore_fidelity:\n                sampled","            if hp.is_fidelity:\n                sampled",A,'V'),
('sample fid2',S,"            if hp.is_fidelity and ignore_fidelity:\n                sampled","            if hp.is_fidelity and not ignore_fidelity:\n                sampled",A,'V'),
('sample alias',S,"                sampled_hps[name] = hp.clone()\n                continue","                sampled_hps[name] = hp\n                continue",A,'V'),
('sample prior',S,"sampled_hps[name] = hp.sample(user_priors=user_priors)","sampled_hps[name] = hp.sample(user_priors=hp.has_prior)",A,'V'),
('sample prior ref',S,"sampled_hps[name] = hp.sample(user_priors=user_priors)","sampled_hps[name] = hp.sample(user_priors=True)",A,'-'),
('sample prior2',S,"                    if user_priors and isinstance(hp, ParameterWithPrior):","                    if user_priors and isinstance(hp, NumericalParameter):",A,'V'),
('mut alias',S,"hp_name: hp.clone() if hp_name != chosen_hp_name else mutated_param","hp_name: hp if hp_name != chosen_hp_name else mutated_param",A,'V'),
('mut fid',S,"            if not hp.is_fidelity and isinstance(hp, MutatableParameter)\n        }","            if isinstance(hp, MutatableParameter)\n        }",A,'-'),
('cross alias',S,"                new_config2[key] = other_hp.clone()","                new_config2[key] = other_hp",A,'V'),
('cross fid',S,"                and not hyperparameter.is_fidelity\n","",A,'V'),
('default skip',S,"            if hp.default is None:\n                if not ignore","            if not hp.default:\n                if not ignore",A,'V'),
('default set self',S,"config[hp_name].set_value(hp.default)","hp.set_value(hp.default)",A,'V'),
('default fid',S,"            if hp.is_fidelity and ignore_fidelity:\n                continue\n\n            if hp.default","            if hp.is_fidelity:\n                continue\n\n            if hp.default",A,'V'),
('max fid',S,"self.fidelity.set_value(self.fidelity.upper)","self.fidelity.set_value(self.fidelity.default or self.fidelity.upper)",A,'V'),
('grid lower',S,"np.clip(grid, hp.lower, hp.upper).astype(np.float64)","np.asarray(grid).astype(np.float64)",A,'V'),
('grid dup',S,"np.unique(_grid).tolist()","_grid.tolist()",A,'V'),
('grid skip const',S,"                param_ranges.append([hp.value])\n                continue","                continue",A,'V'),
('grid raw',S,"param_ranges.append(np.unique(_grid).tolist())","param_ranges.append(grid)",A,'V'),
('setdict value',S,"            if values:\n                current_hp.set_value(new_hp_value)","            if values and not defaults:\n                current_hp.set_value(new_hp_value)",A,'V'),
('setdict conf',S,"                    current_hp.set_default_confidence_score(confidence)","                    pass",A,'V'),
('setdict const',S,"                if not overwrite_constants:\n                    continue","",A,'V'),
('hpvals',S,"            hp_name: hp if isinstance(hp, GraphParameter) else hp.value\n","            hp_name: hp if isinstance(hp, GraphParameter) else hp.value\n            if not isinstance(hp, ConstantParameter) else hp.default\n",A,'V'),
]

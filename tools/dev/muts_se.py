H='neps/optimizers/multi_fidelity/successive_halving.py'
B='neps/optimizers/multi_fidelity/hyperband.py'
PP='neps/optimizers/multi_fidelity/promotion_policy.py'
G='neps/optimizers/grid_search/optimizer.py'
AP='neps/optimizers/multi_fidelity_prior/async_priorband.py'
A='searchers.*'
MUTS=[
('grid off by one',G,"if _num_previous_configs > len(self.configs_list) - 1:","if _num_previous_configs > len(self.configs_list):",A,'V'),
('grid early',G,"if _num_previous_configs > len(self.configs_list) - 1:","if _num_previous_configs >= len(self.configs_list) - 1:",A,'V'),
('grid ge ref',G,"if _num_previous_configs > len(self.configs_list) - 1:","if _num_previous_configs >= len(self.configs_list):",A,'-'),
('grid unseeded',G,"random.Random(0 if self.seed is None else self.seed)","random.Random(self.seed)",A,'V'),
('grid selfrng',G,"configs = rng.sample(self.configs_list, len(self.configs_list))","configs = random.sample(self.configs_list, len(self.configs_list))",A,'V'),
('grid choice',G,"config = configs[_num_previous_configs]","config = rng.choice(configs)",A,'B'),
('grid idx',G,"config = configs[_num_previous_configs]","config = configs[_num_previous_configs - 1]",A,'V'),
('grid sample k',G,"rng.sample(self.configs_list, len(self.configs_list))","rng.sample(self.configs_list, k=_num_previous_configs + 1)",A,'V'),
('grid ref2',G,"        rng = random.Random(0 if self.seed is None else self.seed)\n        configs = rng.sample(self.configs_list, len(self.configs_list))\n","        seed = self.seed if self.seed is not None else 0\n        configs = random.Random(seed).sample(self.configs_list, k=len(self.configs_list))\n",A,'-'),
('grid ref plain',G,"        config = configs[_num_previous_configs]","        config = self.configs_list[_num_previous_configs]",A,'-'),
('grid filter',G,"self.configs_list = [c.hp_values() for c in grid]","self.configs_list = [c.hp_values() for c in grid if c.has_prior]",A,'V'),
('grid loop ref',G,"        self.configs_list = [c.hp_values() for c in grid]","        configs = []\n        for c in grid:\n            configs.append(c.hp_values())\n        self.configs_list = configs",A,'-'),
('prev rung',H,"            previous_config_id = f\"{row.name}_{rung_to_promote}\"","            previous_config_id = f\"{row.name}_{rung}\"",A,'V'),
('two rungs',H,"            rung = rung_to_promote + 1","            rung = min(rung_to_promote + 2, self.max_rung)",A,'V'),
('fid rung',H,"            config.fidelity.set_value(self.rung_map[rung])","            config.fidelity.set_value(self.rung_map[rung_to_promote])",A,'V'),
('fid max',H,"            config.fidelity.set_value(fidelity_value)","            config.set_to_max_fidelity()",A,'V'),
('gen id len',H,"        _max = self.observed_configs.index.max()\n        return int(_max) + 1","        return len(self.observed_configs)",A,'V'),
('gen id nomax',H,"        return int(_max) + 1","        return int(_max)",A,'V'),
('gen id default',H,"        if len(self.observed_configs) == 0:\n            return 0","        if self.sample_default_first:\n            return 0",A,'V'),
('id ref',H,"        _max = self.observed_configs.index.max()\n        return int(_max) + 1","        return 1 + int(max(self.observed_configs.index))",A,'-'),
('promo other',H,"row = self.observed_configs.iloc[self.rung_promotions[rung_to_promote][0]]","row = self.observed_configs.iloc[self.rung_promotions[rung_to_promote][-1]]",A,'-'),
('promo members',H,"row = self.observed_configs.iloc[self.rung_promotions[rung_to_promote][0]]","row = self.observed_configs.iloc[self.rung_members[rung_to_promote][0]]",A,'V'),
('default rung id',H,"                    rung_id = self.max_rung\n","                    rung_id = self.max_rung + 1\n",A,'V'),
('propose ref',H,"            previous_config_id = f\"{row.name}_{rung_to_promote}\"\n            config_id = f\"{row.name}_{rung}\"","            number = row.name\n            config_id = f\"{number}_{rung}\"\n            previous_config_id = f\"{number}_{rung - 1}\"",A,'-'),
('observe crashed',H,"            if trial.report is not None\n","            if trial.report is not None and trial.report.err is None\n",A,'V'),
('observe pending dup',H,"            if trial.report is None\n","            if trial.state == trial.state.PENDING\n",A,'V'),
('observe no reset',H,"        self.observed_configs = pd.DataFrame([], columns=(\"config\", \"rung\", \"perf\"))\n\n        # previous","        # previous",A,'V'),
('hb observe no reset',B,"        self.observed_configs = pd.DataFrame([], columns=(\"config\", \"rung\", \"perf\"))\n\n        # previous","        # previous",A,'V'),
('hb update late',B,"        # important for the global HB to run the right SH\n        self._update_sh_bracket_state()\n\n        config, _id, previous_id = self.get_config_and_ids()\n","        config, _id, previous_id = self.get_config_and_ids()\n        self._update_sh_bracket_state()\n",A,'V'),
('hb no pending',B,"        # account for pending evaluations\n        self._handle_pending_evaluations(pending)\n","",A,'V'),
('order',H,"        # filter/reset old SH brackets\n        self.clear_old_brackets()\n\n        # identifying promotion list per rung\n        self._handle_promotions()\n","        # identifying promotion list per rung\n        self._handle_promotions()\n\n        # filter/reset old SH brackets\n        self.clear_old_brackets()\n",A,'V'),
('observe ref',H,"        completed: dict[str, ConfigResult] = {\n            trial_id: trial.into_config_result(self.pipeline_space.from_dict)\n            for trial_id, trial in trials.items()\n            if trial.report is not None\n        }\n        pending: dict[str, SearchSpace] = {\n            trial_id: self.pipeline_space.from_dict(trial.config)\n            for trial_id, trial in trials.items()\n            if trial.report is None\n        }\n","        completed: dict[str, ConfigResult] = {}\n        pending: dict[str, SearchSpace] = {}\n        for trial_id, trial in trials.items():\n            if trial.report is None:\n                pending[trial_id] = self.pipeline_space.from_dict(trial.config)\n            else:\n                completed[trial_id] = trial.into_config_result(self.pipeline_space.from_dict)\n",A,'-'),
('load le',H,"                if rung_recorded < int(_rung):","                if rung_recorded > int(_rung):",A,'V'),
('load always',H,"                if rung_recorded < int(_rung):","                if True:",A,'V'),
('load no perf',H,"                    self.observed_configs.at[int(_config), \"perf\"] = perf\n            else","            else",A,'V'),
('load hist else',H,"            self.rung_histories[int(_rung)][\"perf\"].append(perf)","            if perf < np.inf:\n                self.rung_histories[int(_rung)][\"perf\"].append(perf)",A,'V'),
('load hist rung',H,"            self.rung_histories[int(_rung)][\"config\"].append(int(_config))","            self.rung_histories[self.min_rung][\"config\"].append(int(_config))",A,'V'),
('load err nan',H,"                perf = np.inf","                perf = np.nan",A,'V'),
('load err loss',H,"                perf = np.inf","                perf = 0.0",A,'V'),
('load ref',H,"        for config_id, config_val in previous_results.items():\n            _config, _rung = self._get_config_id_split(config_id)\n            perf","        for config_id in previous_results:\n            config_val = previous_results[config_id]\n            _config, _rung = self._get_config_id_split(config_id)\n            perf",A,'B'),
('load ref2',H,"            if int(_config) in self.observed_configs.index:\n                # config already recorded in dataframe\n                rung_recorded = self.observed_configs.at[int(_config), \"rung\"]\n                if rung_recorded < int(_rung):","            number, rung = int(_config), int(_rung)\n            if number in self.observed_configs.index:\n                # config already recorded in dataframe\n                if rung > self.observed_configs.at[number, \"rung\"]:",A,'-'),
('pending skip known',H,"                self.observed_configs.at[int(_config), \"rung\"] = int(_rung)\n                self.observed_configs.at[int(_config), \"perf\"] = np.nan","                pass",A,'V'),
('pending keep perf',H,"                self.observed_configs.at[int(_config), \"perf\"] = np.nan\n","",A,'V'),
('pending inf',H,"                    [[config, int(_rung), np.nan]],","                    [[config, int(_rung), np.inf]],",A,'V'),
('rungs no dropna',H,"self.observed_configs.copy().dropna(inplace=False)","self.observed_configs.copy()",A,'V'),
('rungs mix',H,"self.rung_members_performance[_rung] = observed_configs.perf[idxs].values","self.rung_members_performance[_rung] = self.observed_configs.perf[idxs].values",A,'V'),
('rungs ge',H,"            idxs = observed_configs.rung == _rung","            idxs = observed_configs.rung >= _rung",A,'V'),
('rungs ref',H,"            self.rung_members[_rung] = observed_configs.index[idxs].values\n            self.rung_members_performance[_rung] = observed_configs.perf[idxs].values","            at_rung = observed_configs[idxs]\n            self.rung_members[_rung] = at_rung.index.values\n            self.rung_members_performance[_rung] = at_rung.perf.values",A,'-'),
('promote worst',PP,"selected_idx = np.argsort(self.rung_members_performance[rung])[:top_k]","selected_idx = np.argsort(self.rung_members_performance[rung])[-top_k:]",A,'V'),
('promote neg',PP,"_ordered_idx = np.argsort(self.rung_members_performance[rung])","_ordered_idx = np.argsort(-np.array(self.rung_members_performance[rung]))",A,'V'),
('promote nan',PP,"                total_rung_evals >= self.config_map[rung]\n                and np.isnan(self.rung_members_performance[rung]).sum() == 0","                total_rung_evals >= self.config_map[rung]",A,'-'),
('promote nan2',PP,"            if (\n                total_rung_evals >= self.config_map[rung]\n                and np.isnan(self.rung_members_performance[rung]).sum()\n            ):\n                # if rung is full but incomplete evaluations, pause on promotions, wait\n                return self.rung_promotions\n","",A,'-'),
('promote notfull',PP,"                total_rung_evals >= self.config_map[rung]\n                and np.isnan(self.rung_members_performance[rung]).sum() == 0","                np.isnan(self.rung_members_performance[rung]).sum() == 0",A,'V'),
('promote top',PP,"        for rung in range(self.max_rung + 1):\n            if rung == self.max_rung:\n                # cease promotions for the highest rung (configs at max budget)\n                continue\n            # if less","        for rung in range(self.max_rung + 1):\n            # if less",A,'V'),
('promote top ref',PP,"        for rung in range(self.max_rung + 1):\n            if rung == self.max_rung:\n                # cease promotions for the highest rung (configs at max budget)\n                continue\n            # if less","        for rung in range(self.max_rung):\n            # if less",A,'-'),
('promote async ref',PP,"            _ordered_idx = np.argsort(self.rung_members_performance[rung])\n            self.rung_promotions[rung] = np.array(self.rung_members[rung])[_ordered_idx][\n                :top_k\n            ].tolist()","            best = np.argsort(self.rung_members_performance[rung])[:top_k]\n            self.rung_promotions[rung] = np.array(self.rung_members[rung])[best].tolist()",A,'-'),
('promote members other',PP,"self.rung_promotions[rung] = self.rung_members[rung][selected_idx]","self.rung_promotions[rung] = self.rung_members[rung - 1][selected_idx]",A,'V'),
('bracket obs stale',B,"        bracket.observed_configs = self.observed_configs.copy()\n\n    def clear","        if bracket.observed_configs.empty:\n            bracket.observed_configs = self.observed_configs.copy()\n\n    def clear",A,'-'),
('bracket async members',B,"                members=self.rung_members,\n                performances=self.rung_members_performance,\n                config_map=bracket.config_map,","                members=bracket.rung_members,\n                performances=self.rung_members_performance,\n                config_map=bracket.config_map,",A,'V'),
('bracket other',B,"        bracket = self.sh_brackets[self.current_sh_bracket]\n        bracket.obs","        bracket = self.sh_brackets[0]\n        bracket.obs",A,'V'),
('bracket ap',AP,"            bracket.rung_promotions = bracket.promotion_policy.retrieve_promotions()\n","            bracket.rung_promotions = self.promotion_policy.retrieve_promotions()\n",A,'V'),
]

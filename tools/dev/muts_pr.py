F='neps/optimizers/multi_fidelity/ifbo.py'; R='neps/optimizers/random_search/optimizer.py'; G='neps/optimizers/grid_search/optimizer.py'; B='neps/optimizers/bayesian_optimization/optimizer.py'
I='proposals.ifbo_ids proposals.ifbo_continuation proposals.ifbo_steps'; U='proposals.fresh_ids'
MUTS=[
('len_id',F,'new_id = max(ids) + 1 if len(ids) > 0 else 0','new_id = len(ids)',I,'V'),
('noplus',F,'new_id = max(ids) + 1 if','new_id = max(ids) if',I,'V'),
('strmax',F,'ids = [int(config_id.split("_", maxsplit=1)[0]) for config_id in trials]\n        new_id = max(ids) + 1','ids = [config_id.split("_", maxsplit=1)[0] for config_id in trials]\n        new_id = int(max(ids)) + 1',I,'V'),
('count_new',F,'new_id = max(ids) + 1 if len(ids) > 0 else 0','new_id = len([i for i in trials if i.endswith("_0")])',I,'B'),
('lastid',F,'new_id = max(ids) + 1 if','new_id = ids[-1] + 1 if',I,'V'),
('prev_next',F,'previous_config_id=f"{_id}_{budget_ix}"','previous_config_id=f"{_id}_{next_ix}"',I,'V'),
('same_step',F,'id=f"{_id}_{next_ix}"','id=f"{_id}_{budget_ix}"',I,'V'),
('newidcont',F,'id=f"{_id}_{next_ix}"','id=f"{new_id}_{next_ix}"',I,'V'),
('noprev',F,'            previous_config_id=f"{_id}_{budget_ix}",\n','',I,'V'),
('fid_old',F,'config[self._fidelity_name] = next_fid','config[self._fidelity_name] = fid',I,'V'),
('bix_fid',F,'next_fid = self._fid_domain.cast_one(next_ix,','next_fid = self._fid_domain.cast_one(budget_ix,',I,'V'),
('frm_wrong',F,'cast_one(fid, frm=self._fid_domain)','cast_one(fid, frm=self._budget_domain)',I,'V'),
('nofinish',F,'X[pending_mask | finished_mask]','X[pending_mask]',I,'V'),
('nopend',F,'X[pending_mask | finished_mask]','X[finished_mask]',I,'V'),
('gt',F,'budget_ix >= self._budget_ix_domain.upper','budget_ix > self._budget_ix_domain.upper',I,'V'),
('isin_inv',F,'X[~torch.isin(','X[torch.isin(',I,'V'),
('rowonly',F,'continuable_X = X[~torch.isin(X[:, 0], unavailable_ids)]','continuable_X = X[~(pending_mask | finished_mask)]',I,'V'),
('col1',F,'[:, 0]\n        continuable_X','[:, 1]\n        continuable_X',I,'V'),
('bins',F,'Domain.indices(fid_bins + 1)','Domain.indices(fid_bins)',I,'V'),
('lowr',F,'new_lower = fidelity.lower + r','new_lower = fidelity.lower - r',I,'V'),
('fidorig',F,'self._fid_domain = space.fidelity.domain','self._fid_domain = pipeline_space.fidelity.domain',I,'V'),
('minb',F,'self._min_budget: int | float = space.fidelity.lower','self._min_budget: int | float = pipeline_space.fidelity.lower',I,'V'),
('rs',R,'str(n_trials + 1)','str(len([t for t in trials.values() if t.report is not None]) + 1)',U,'V'),
('gs',G,'config_id = str(_num_previous_configs)','config_id = str(_num_previous_configs % 5)',U,'V'),
('bo',B,'return SampledConfig(id=config_id, config=self.init_design[n_sampled])','return SampledConfig(id=str(n_sampled), config=self.init_design[n_sampled])',U,'B'),
# refactors
('r1',F,'        next_ix = budget_ix + 1\n','        step = 1\n        next_ix = step + budget_ix\n',I,'-'),
('r2',F,'        unavailable_ids = X[pending_mask | finished_mask][:, 0]\n        continuable_X = X[~torch.isin(X[:, 0], unavailable_ids)]','        id_column = X[:, 0]\n        unavailable = torch.logical_or(pending_mask, finished_mask)\n        available = ~torch.isin(id_column, id_column[unavailable])\n        continuable_X = X[available]',I,'-'),
('r3',F,'new_id = max(ids) + 1 if len(ids) > 0 else 0','new_id = max(ids, default=-1) + 1',I,'-'),
('r4',F,'ids = [int(config_id.split("_", maxsplit=1)[0]) for config_id in trials]\n        new_id = max(ids) + 1 if len(ids) > 0 else 0','new_id = self._next_id(trials)',I,'-'),
('r5',F,'ids = [int(config_id.split("_", maxsplit=1)[0]) for config_id in trials]','ids = []\n        for config_id in trials:\n            num, _, _ = config_id.partition("_")\n            ids.append(int(num))',I,'-'),
('r6',R,'str(n_trials + 1)','f"{1 + n_trials}"',U,'-'),
('r7',F,'        next_fid = self._fid_domain.cast_one(next_ix, frm=self._budget_ix_domain)\n\n        config[self._fidelity_name] = next_fid\n        return SampledConfig(','        config = {**config, self._fidelity_name: self._fid_domain.cast_one(next_ix, frm=self._budget_ix_domain)}\n        return SampledConfig(',I,'-'),
('r8',F,'        config[self._fidelity_name] = next_fid\n        return SampledConfig(','        config.update({self._fidelity_name: next_fid})\n        return SampledConfig(',I,'-'),
('r9',F,'budget_ix >= self._budget_ix_domain.upper','budget_ix > self._budget_ix_domain.upper - 1',I,'-'),
('r10',F,'finished_mask = budget_ix >= self._budget_ix_domain.upper','finished_mask = ~(budget_ix < self._budget_ix_domain.upper)',I,'-'),
]
MUTS[28]=('r4',[(F,MUTS[28][2],MUTS[28][3]),(F,'    @override\n    def ask(','    def _next_id(self, trials):\n        ids = {int(i.split("_")[0]) for i in trials}\n        if not ids:\n            return 0\n        return max(ids) + 1\n\n    @override\n    def ask(')],None,None,I,'-')

G='neps/optimizers/bayesian_optimization/models/gp.py'; T='neps/optimizers/bayesian_optimization/models/ftpfn.py'; B='neps/optimizers/bayesian_optimization/optimizer.py'; S='neps/optimizers/multi_fidelity/sampling_policy.py'; M='neps/optimizers/multi_fidelity/mf_bo.py'; H='neps/optimizers/multi_fidelity/successive_halving.py'
A='models.*'
MUTS=[
('gp_drop_failed_loss',G,'        train_losses.append(torch.nan if loss is None else loss)','        if loss is not None:\n            train_losses.append(loss)',A,'V'),
('gp_fill0',G,'nan=fill_value)\n\n    cost','nan=0.0)\n\n    cost',A,'V'),
('gp_fillmin',G,'fill_value = torch.nanmedian(y_train).item()','fill_value = torch.median(y_train).item()',A,'V'),
('gp_cost_falsy',G,'train_costs.append(torch.nan if cost is None else cost)','train_costs.append(cost or torch.nan)',A,'V'),
('gp_loss_falsy',G,'train_losses.append(torch.nan if loss is None else loss)','train_losses.append(loss or torch.nan)',A,'V'),
('gp_pend_train',G,'            pending_configs.append(trial.config)\n            continue','            pending_configs.append(trial.config)\n            train_configs.append(trial.config)\n            continue',A,'V'),
('gp_failed_pend',G,'        if trial.report is None:\n            pending','        if trial.report is None or trial.report.loss is None:\n            pending',A,'V'),
('gp_cost_skip',G,'        train_costs.append(torch.nan if cost is None else cost)','        if cost is not None:\n            train_costs.append(cost)',A,'V'),
('gp_no_pending',G,'if len(pending_configs) > 0:','if len(pending_configs) > 1:',A,'V'),
('gp_sorted_losses',G,'y_train = torch.tensor(train_losses,','y_train = torch.tensor(sorted(train_losses),',A,'B'),
('cost_mask_x',G,'            x_train_cost = x_train[not_missing_mask]\n','            x_train_cost = x_train[: int(not_missing_mask.sum())]\n',A,'B'),
('cost_mask_y',G,'            y_train_cost = costs[not_missing_mask]','            y_train_cost = costs[missing_costs]',A,'V'),
('cost_fill',G,'            y_train_cost = costs[not_missing_mask]','            y_train_cost = torch.nan_to_num(costs)[not_missing_mask]',A,'-'),
('cost_nomask',G,'        if missing_costs.any():','        if missing_costs.all():',A,'V'),
('cost_unused',G,'        acquisition = cost_cooled_acq(','        _ = cost_cooled_acq(',A,'V'),
('pibo_unused',G,'        acquisition = pibo_acquisition(\n            acquisition,\n            prior=prior,\n            prior_exponent=pibo_exp_term,\n            x_domain=encoder.domains,','        pibo = pibo_acquisition(\n            acquisition,\n            prior=prior,\n            prior_exponent=pibo_exp_term,\n            x_domain=encoder.domains,',A,'V'),
('bo_guard_report',B,'            trial.report is not None and trial.report.loss is not None\n','            trial.report is not None\n',A,'V'),
('bo_guard_all',B,'        if not any(\n            trial.report','        if not all(\n            trial.report',A,'B'),
('bo_cost_always',B,'costs=data.cost if self.use_cost else None','costs=data.cost',A,'V'),
('bo_max',B,'weights=torch.tensor([-1.0])','weights=torch.tensor([1.0])',A,'V'),
('bo_nopend',B,'X_pending=data.x_pending','X_pending=None',A,'V'),
('bo_percent',B,'budget_info.used_cost_budget / budget_info.max_cost_budget','budget_info.max_cost_budget / budget_info.used_cost_budget',A,'V'),
('ft_err_best',T,'(1 - error_value if trial','(error_value if trial',A,'V'),
('ft_pend_err',T,'            pending_value\n            if trial.report is None\n','            pending_value\n            if trial.report is None or trial.report.loss is None\n',A,'V'),
('ft_falsy',T,'(1 - error_value if trial.report.loss is None else trial.report.loss)','(trial.report.loss or 1 - error_value)',A,'V'),
('ft_ids0',T,'ids = ids + 1','ids = ids + 0',A,'V'),
('ft_idstep',T,'int(config_id.split("_", maxsplit=1)[0])','int(config_id.split("_", maxsplit=1)[1])',A,'V'),
('ft_selected',T,'selected = dict(trials.items())','selected = {i: t for i, t in trials.items() if t.report is not None}',A,'V'),
('ft_sorted',T,'selected = dict(trials.items())','selected = dict(sorted(trials.items(), key=lambda x: x[0]))',A,'B'),
('ft_nominus',T,'maximize_ys = 1 - minimize_ys','maximize_ys = minimize_ys',A,'V'),
('ft_cols',T,'[ids.unsqueeze(1), train_budgets.unsqueeze(1), train_configs]','[train_budgets.unsqueeze(1), ids.unsqueeze(1), train_configs]',A,'V'),
('ft_dec_id',T,'None if _id == 0 else int(_id) - 1','None if _id == 0 else int(_id)',A,'V'),
('ft_dec_none',T,'None if _id == 0 else int(_id) - 1','None if _id <= 1 else int(_id) - 1',A,'V'),
('ft_dec_cfg',T,'encoder.decode(x[:, 2:])','encoder.decode(x[:, 1:])',A,'B'),
('ft_dec_fid',T,'fidelity_domain.cast(x[:, 1], frm=budget_domain)','budget_domain.cast(x[:, 1], frm=fidelity_domain)',A,'B'),
('mp_inf',S,'        y_train = torch.where(finite, y_train, fill_value)\n','',A,'V'),
('mp_drop',S,'y_train = torch.where(finite, y_train, fill_value)','y_train = y_train[finite]',A,'V'),
('mp_fill0',S,'fill_value = y_train[finite].median().item() if finite.any() else 0.0','fill_value = 0.0',A,'V'),
('mp_pend',S,'X_pending=x_pending','X_pending=x_train',A,'V'),
('mf_rungy',M,'train_y = deepcopy(self.rung_histories[rung]["perf"])\n            # extract','train_y = deepcopy(self.rung_histories[self.min_rung]["perf"])\n            # extract',A,'V'),
('mf_fid',M,'fidelities = [self.rung_map[rung]] * len(train_df)','fidelities = [self.rung_map[self.max_rung]] * len(train_df)',A,'V'),
('mf_range',M,'range(self.min_rung, self.max_rung + 1)','range(self.min_rung, self.max_rung)',A,'V'),
('mf_nocopy',M,'_x = deepcopy(self.observed_configs.loc[_ids].config.values.tolist())','_x = self.observed_configs.loc[_ids].config.values.tolist()',A,'V'),
('attr',S,'self._acq(x.unsqueeze(1))','self.acquisition(x.unsqueeze(1))',A,'V'),
('dflt',H,'                config = self.pipeline_space.sample_default_configuration(\n                    ignore_missing_defaults=True\n                )','                config = self.pipeline_space.sample_default_configuration()',A,'V'),
# refactors
('r_gp1',G,'        loss = trial.report.loss\n        train_losses.append(torch.nan if loss is None else loss)\n','        report = trial.report\n        if report.loss is None:\n            train_losses.append(float("nan"))\n        else:\n            train_losses.append(report.loss)\n',A,'-'),
('r_gp2',G,'    y_train = torch.nan_to_num(y_train, nan=fill_value)','    y_train = torch.where(torch.isnan(y_train), fill_value, y_train)',A,'-'),
('r_gp3',G,'    y_train = torch.nan_to_num(y_train, nan=fill_value)','    y_train[torch.isnan(y_train)] = fill_value',A,'-'),
('r_gp4',G,'''    if len(pending_configs) > 0:
        x_pending = encoder.encode(pending_configs, device=device)
    else:
        x_pending = None
''','''    x_pending = encoder.encode(pending_configs, device=device) if pending_configs else None
''',A,'-'),
('r_gp5',G,'''    for trial in trials.values():
        if trial.report is None:
            pending_configs.append(trial.config)
            continue

        train_configs.append(trial.config)

        loss = trial.report.loss
        train_losses.append(torch.nan if loss is None else loss)

        cost = trial.report.cost
        train_costs.append(torch.nan if cost is None else cost)
''','''    pending_configs = [t.config for t in trials.values() if t.report is None]
    reported = [t for t in trials.values() if t.report is not None]
    train_configs = [t.config for t in reported]
    train_losses = [torch.nan if t.report.loss is None else t.report.loss for t in reported]
    train_costs = [torch.nan if t.report.cost is None else t.report.cost for t in reported]
''',A,'-'),
('r_cost',G,'''        if missing_costs.any():
            not_missing_mask = ~missing_costs
            x_train_cost = x_train[not_missing_mask]
            y_train_cost = costs[not_missing_mask]
        else:
            x_train_cost = x_train
            y_train_cost = costs
''','''        known = torch.logical_not(missing_costs)
        x_train_cost, y_train_cost = x_train[known], costs[known]
''',A,'-'),
('r_bo',B,'''        if not any(
            trial.report is not None and trial.report.loss is not None
            for trial in trials.values()
        ):''','''        losses = [t.report.loss for t in trials.values() if t.report is not None]
        if all(loss is None for loss in losses):''',A,'-'),
('r_bo2',B,'''        if not any(
            trial.report is not None and trial.report.loss is not None
            for trial in trials.values()
        ):''','''        n_losses = sum(
            1
            for trial in trials.values()
            if trial.report is not None and trial.report.loss is not None
        )
        if n_losses == 0:''',A,'-'),
('r_ft',T,'''    minimize_ys = torch.tensor(
        [
            pending_value
            if trial.report is None
            else (1 - error_value if trial.report.loss is None else trial.report.loss)
            for trial in trials.values()
        ],
        device=device,
        dtype=dtype,
    )''','''    ys = []
    for trial in trials.values():
        report = trial.report
        if report is None:
            ys.append(pending_value)
        elif report.loss is None:
            ys.append(1 - error_value)
        else:
            ys.append(report.loss)
    minimize_ys = torch.tensor(ys, device=device, dtype=dtype)''',A,'-'),
('r_ft2',T,'''        [int(config_id.split("_", maxsplit=1)[0]) for config_id in selected],
        device=device,
        dtype=dtype,
    )
    # PFN uses `0` id for test configurations
    ids = ids + 1
''','''        [int(config_id.split("_")[0]) + 1 for config_id in selected],
        device=device,
        dtype=dtype,
    )
''',A,'-'),
('r_mp',S,'y_train = torch.where(finite, y_train, fill_value)','y_train = torch.where(~finite, fill_value, y_train)',A,'-'),
('r_dec',T,'real_ids = [None if _id == 0 else int(_id) - 1 for _id in _raw_ids]','real_ids = [int(_id) - 1 if _id else None for _id in _raw_ids]',A,'-'),
('r_mf',M,'            for rung in range(self.min_rung, self.max_rung + 1):\n                _ids = self.rung_histories[rung]["config"]','            for rung in range(self.min_rung, 1 + self.max_rung):\n                history = self.rung_histories[rung]\n                _ids = history["config"]',A,'-'),
]

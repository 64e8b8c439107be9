S='neps/status/status.py'
A='status.*'
FB='neps/state/filebased.py'
MUTS=[
('eval succ only',S,"        if trial.report is None:\n            continue","        if trial.report is None or trial.report.reported_as == \"crashed\":\n            continue",A,'V'),
('inprog pending',S,"        if trial.state == Trial.State.EVALUATING\n","        if trial.state.pending()\n",A,'V'),
('pending loc',S,"summary[\"pending_configs\"] = {**in_progress, **pending}","summary[\"pending_configs\"] = in_progress",A,'V'),
('pending free',S,"summary[\"pending_configs_free\"] = pending","summary[\"pending_configs_free\"] = in_progress",A,'V'),
('num pend',S,"summary[\"num_pending_configs\"] = len(in_progress) + len(pending)","summary[\"num_pending_configs\"] = len(pending)",A,'V'),
('best le',S,"loss < summary[\"best_loss\"]:","loss <= summary[\"best_loss\"]:",A,'-'),
('best gt',S,"loss < summary[\"best_loss\"]:","loss > summary[\"best_loss\"]:",A,'V'),
('best first',S,"            summary[\"best_loss\"] = loss\n            summary[\"best_config\"] = evaluation.config","            summary[\"best_config\"] = evaluation.config",A,'V'),
('best cfg',S,"            summary[\"best_config_id\"] = evaluation.id","            summary[\"best_config_id\"] = trial.id",A,'V'),
('best meta',S,"            summary[\"best_config_metadata\"] = evaluation.metadata","            summary[\"best_config_metadata\"] = asdict(trial.metadata)",A,'V'),
('err count',S,"        if evaluation.result == \"error\":\n            summary[\"num_error\"] += 1","        if evaluation.result == \"error\":\n            summary[\"num_error\"] = 1",A,'V'),
('err loss',S,"        if evaluation.result == \"error\":","        if evaluation.loss is None:",A,'V'),
('meta share',S,"            metadata=asdict(trial.metadata),","            metadata=asdict(trials[next(iter(trials))].metadata),",A,'V'),
('best int',S,"if isinstance(loss, float) and loss","if loss and isinstance(loss, float) and loss",A,'V'),
('ref comp',S,"    for trial in trials.values():\n        if trial.report is None:\n            continue\n\n        _result_for_stats = _ConfigResultForStats(\n            id=trial.id,\n            config=trial.config,\n            result=trial.report.to_deprecate_result_dict(),\n            metadata=asdict(trial.metadata),\n        )\n        evaluated[trial.id] = _result_for_stats\n","    evaluated = {\n        trial_id: _ConfigResultForStats(\n            trial_id, trial.config, trial.report.to_deprecate_result_dict(), asdict(trial.metadata)\n        )\n        for trial_id, trial in trials.items()\n        if trial.report is not None\n    }\n",A,'-'),
('ref helper',S,"    for evaluation in evaluated.values():\n        if evaluation.result == \"error\":\n            summary[\"num_error\"] += 1\n        loss","    summary[\"num_error\"] = sum(e.result == \"error\" for e in evaluated.values())\n    for evaluation in evaluated.values():\n        loss",A,'-'),
('ref helper2',S,"    for evaluation in evaluated.values():\n        if evaluation.result == \"error\":\n            summary[\"num_error\"] += 1\n        loss","    summary[\"num_error\"] = sum(1 for e in evaluated.values() if e.result == \"error\")\n    for evaluation in evaluated.values():\n        loss",A,'-'),
('ref filter loop',S,"    for evaluation in evaluated.values():\n        if evaluation.result == \"error\":\n            summary[\"num_error\"] += 1\n        loss","    for evaluation in evaluated.values():\n        if evaluation.result == \"error\":\n            summary[\"num_error\"] += 1\n            continue\n        loss",A,'-'),
('ret swap',S,"    return summary[\"previous_results\"], summary[\"pending_configs\"]\n\n\ndef _init","    return summary[\"previous_results\"], summary[\"pending_configs_free\"]\n\n\ndef _init",A,'V'),
('early',S,"            return summary[\"previous_results\"], summary[\"pending_configs\"]\n\n        print()","            return {}, {}\n\n        print()",A,'V'),
('csv align',S,"        if include_results:\n            result_data_prev.append(config_result_prev.result)","        if include_results and config_result_prev.result != \"error\":\n            result_data_prev.append(config_result_prev.result)",A,'V'),
('csv pend status',S,"    df_pending[\"status\"] = \"pending\"","    df_pending[\"status\"] = \"complete\"",A,'V'),
('csv join',S,"join=\"outer\", ignore_index=True)","join=\"inner\", ignore_index=True)",A,'V'),
('csv swap num',S,"\"num_pending_configs\": summary[\"num_pending_configs\"],","\"num_pending_configs\": summary[\"num_pending_configs_with_worker\"],",A,'V'),
('csv sort unguard',S,"    if \"result.loss\" not in config_data_df.columns:\n        return config_data_df\n","",A,'V'),
('csv lock',S,"    with locker(poll=2):\n        try:","    if True:\n        try:",A,'V'),
('csv one',S,"                config_data_df.to_csv(config_data_file_path, index=False, mode=\"w\")\n                run_data_df.to_csv(run_data_file_path, index=True, mode=\"w\")\n\n            if","                config_data_df.to_csv(config_data_file_path, index=False, mode=\"w\")\n\n            if",A,'V'),
('csv ge',S,"if int(num_evaluated_configs_csv) < num_evaluated_configs_run.iloc[0]:","if int(num_evaluated_configs_csv) > num_evaluated_configs_run.iloc[0]:",A,'V'),
('csv le',S,"if int(num_evaluated_configs_csv) < num_evaluated_configs_run.iloc[0]:","if int(num_evaluated_configs_csv) <= num_evaluated_configs_run.iloc[0]:",A,'-'),
('csv append',S,"                    config_data_df.to_csv(config_data_file_path, index=False, mode=\"w\")","                    config_data_df.to_csv(config_data_file_path, index=False, mode=\"a\")",A,'V'),
('csv same file',S,"summary_csv_directory / \"run_status.csv\"","summary_csv_directory / \"config_data.csv\"",A,'V'),
('csv lock dir',S,"csv_locker = Locker(summary_csv_directory / \".csv_lock\")","csv_locker = Locker(Path.home() / \".csv_lock\")",A,'V'),
('csv swapped args',S,"        csv_rundata,\n        csv_locker,\n        df_config_data,\n        df_run_data,\n    )","        csv_rundata,\n        csv_locker,\n        df_run_data,\n        df_config_data,\n    )",A,'V'),
('csv ref',S,"        try:\n            pending_configs = run_data_df.loc[\"num_pending_configs\", \"value\"]\n            pending_configs_with_worker = run_data_df.loc[\n                \"num_pending_configs_with_worker\",\n                \"value\",\n            ]\n            # Represents the last worker\n            if int(pending_configs) == 0 and int(pending_configs_with_worker) == 0:\n                config_data_df = _sort_by_loss(config_data_df)\n                config_data_df.to_csv(config_data_file_path, index=False, mode=\"w\")\n                run_data_df.to_csv(run_data_file_path, index=True, mode=\"w\")\n","        try:\n            values = run_data_df[\"value\"]\n            if int(run_data_df.at[\"num_pending_configs\", \"value\"]) == 0:\n                config_data_df = _sort_by_loss(config_data_df)\n                config_data_df.to_csv(config_data_file_path, index=False, mode=\"w\")\n                run_data_df.to_csv(run_data_file_path, index=True, mode=\"w\")\n",A,'-'),
('ro error',S,"    trials = shared_state.get_all_trials()\n","    trials = shared_state.get_all_trials()\n    (root_directory / \"last_status\").write_text(\"x\")\n",A,'V'),
('ro create',FB,"    if not directory.exists():\n        raise FileNotFoundError(f\"No NePSState found at '{directory}'.\")\n    directory.mkdir","    (directory / '.status').open('a').close()\n    directory.mkdir",A,'V'),
('ro read',FB,"    if not directory.exists():\n        raise FileNotFoundError(f\"No NePSState found at '{directory}'.\")\n    directory.mkdir","    directory.mkdir",A,'-'),
]

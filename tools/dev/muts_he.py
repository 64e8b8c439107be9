R='neps/runtime.py'; K='neps/utils/common.py'
H='helpers.*'
MUTS=[
('getneg',R,'if _CURRENTLY_RUNNING_TRIAL_IN_PROCESS is None:','if _CURRENTLY_RUNNING_TRIAL_IN_PROCESS is not None:',H,'V'),
('getst',R,'    return _WORKER_NEPS_STATE\n','    return None\n',H,'V'),
('cb',R,'            callback(trial)\n','            pass\n',H,'V'),
('cb2',R,'        for _key, callback in _TRIAL_END_CALLBACKS.items():\n            callback(trial)\n','        pass\n',H,'V'),
('cb3',R,'            callback(trial)\n','            callback(_key)\n',H,'V'),
('cbcopy',R,'        for _key, callback in _TRIAL_END_CALLBACKS.items():\n            callback(trial)\n','        for cb in list(_TRIAL_END_CALLBACKS.values()):\n            cb(trial)\n',H,'-'),
('reg',R,'    _TRIAL_END_CALLBACKS[key] = callback','    _TRIAL_END_CALLBACKS.setdefault(key, callback)',H,'B'),
('reg2',R,'    _TRIAL_END_CALLBACKS[key] = callback','    pass',H,'V'),
('reg3',R,'    _TRIAL_END_CALLBACKS[key] = callback','    _TRIAL_END_CALLBACKS.update({key: callback})',H,'-'),
('ckl',K,'directory = trial.metadata.previous_trial_location','directory = trial.metadata.location',H,'V'),
('cks',K,'directory = in_progress_trial.metadata.location','directory = in_progress_trial.metadata.previous_trial_location',H,'V'),
('ckn',K,'    checkpoint_path = (directory / checkpoint_name).with_suffix(".pth")\n\n    saved','    checkpoint_path = (directory / checkpoint_name).with_suffix(".pt")\n\n    saved',H,'V'),
('ckn2',K,'    checkpoint_path = (directory / checkpoint_name).with_suffix(".pth")\n\n    saved','    checkpoint_path = (directory / f"{checkpoint_name}.pth")\n\n    saved',H,'V'),
('ckm',K,'saved_dict["model_state_dict"] = model.state_dict()','saved_dict["model_state_dict"] = optimizer.state_dict()',H,'V'),
('ckv',K,'        saved_dict.update(values_to_save)','        saved_dict = values_to_save',H,'V'),
('ckv2',K,'        saved_dict.update(values_to_save)','        saved_dict = {**saved_dict, **values_to_save}',H,'-'),
('ckv3',K,'        saved_dict.update(values_to_save)','        pass',H,'V'),
('cklo',K,'        optimizer.load_state_dict(checkpoint["optimizer_state_dict"])','        pass',H,'V'),
('cklm',K,'model.load_state_dict(checkpoint["model_state_dict"])','model.load_state_dict(checkpoint["optimizer_state_dict"])',H,'V'),
('ckret',K,'    if model is not None and "model_state_dict" in checkpoint:','    if model is None: return None\n    if model is not None and "model_state_dict" in checkpoint:',H,'V'),
('li',K,'            return None, None\n','            pass\n',H,'V'),
('init',K,'    while (prev_trial_id := trial.metadata.previous_trial_id) is not None:','    if (prev_trial_id := trial.metadata.previous_trial_id) is not None:',H,'V'),
('initloop',K,'''    while (prev_trial_id := trial.metadata.previous_trial_id) is not None:
        trial = neps_state.get_trial_by_id(prev_trial_id)
''','''    while True:
        prev = trial.metadata.previous_trial_id
        if prev is None:
            break
        trial = neps_state.get_trial_by_id(prev)
''',H,'-'),
('initkey',K,'cache_key = trial.metadata.location','cache_key = trial.id',H,'V'),
('initid',K,'split("_", maxsplit=1)[-1]','split("_")[-1]',H,'V'),
('initid2',K,'split("_", maxsplit=1)[-1]','split("_")[1]',H,'V'),
('initid3',K,'Path(pipeline_directory).name.split("_", maxsplit=1)[-1]','Path(pipeline_directory).name.partition("_")[2]',H,'-'),
('initset',K,'    _INTIAL_DIRECTORY_CACHE[cache_key] = path','    _INTIAL_DIRECTORY_CACHE[trial.metadata.location] = path',H,'V'),
]

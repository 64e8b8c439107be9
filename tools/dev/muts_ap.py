A='api.searcher_recorded'
F='neps/api.py'; O='neps/state/optimizer.py'; R='neps/runtime.py'
MUTS=[
('kwargs after record',F,'    searcher_info["searcher_args"] = get_value(searcher_config)\n','',A,'V'),
('record before kwargs',F,'    # Updating searcher arguments from searcher_kwargs\n','    searcher_info["searcher_args"] = get_value(searcher_config)\n',A,'-'),
('really before',[(F,'    searcher_info["searcher_args"] = get_value(searcher_config)\n',''),(F,'    # Updating searcher arguments from searcher_kwargs\n','    searcher_info["searcher_args"] = get_value(searcher_config)\n')],None,None,A,'V'),
('dict()',F,'searcher_info["searcher_args"] = get_value(searcher_config)','searcher_info["searcher_args"] = {k: get_value(v) for k, v in searcher_config.items()}',A,'-'),
('partial',F,'searcher_info["searcher_args"] = get_value(searcher_config)','searcher_info["searcher_args"] = {k: get_value(v) for k, v in searcher_config.items() if v}',A,'V'),
('partial2',F,'searcher_info["searcher_args"] = get_value(searcher_config)','searcher_info["searcher_args"] = {k: get_value(v) for k, v in searcher_config.items() if k in searcher_kwargs}',A,'V'),
('alg name',F,'searcher_info["searcher_alg"] = searcher_alg','searcher_info["searcher_alg"] = searcher_name',A,'V'),
('eq false',O,'@dataclass\nclass OptimizerInfo','@dataclass(eq=False)\nclass OptimizerInfo',A,'V'),
('compare false',O,'    info: Mapping[str, Any]','    info: Mapping[str, Any] = field(compare=False)',A,'V'),
('eq method',O,'    info: Mapping[str, Any]','    info: Mapping[str, Any]\n\n    def __eq__(self, other):\n        return self.info["searcher_alg"] == other.info["searcher_alg"]\n',A,'V'),
('eq method ok',O,'    info: Mapping[str, Any]','    info: Mapping[str, Any]\n\n    def __eq__(self, other):\n        if not isinstance(other, OptimizerInfo):\n            return NotImplemented\n        return self.info == other.info\n',A,'-'),
('runtime',R,'optimizer_info=OptimizerInfo(optimizer_info)','optimizer_info=OptimizerInfo({"searcher_alg": optimizer_info["searcher_alg"]})',A,'V'),
('runtime ref',R,'optimizer_info=OptimizerInfo(optimizer_info)','optimizer_info=OptimizerInfo(info=optimizer_info)',A,'-'),
('get_value none list','neps/utils/common.py','        return [get_value(item) for item in obj]','        return len(obj)',A,'V'),
]

S='neps/search_spaces/search_space.py'
Y='neps/search_spaces/yaml_search_space_utils.py'
A_='neps/api.py'
A='spaceio.*'
MUTS=[
('int upper trunc',Y,"                if lower == int(lower) and upper == int(upper):","                if lower == int(lower):",A,'V'),
('int default round',Y,"                default = convert_scientific_notation(details[\"default\"])\n                if default == int(default):\n                    details[\"default\"] = int(default)\n                else:\n                    raise TypeError()  # type of value is not int","                details[\"default\"] = int(convert_scientific_notation(details[\"default\"]))",A,'V'),
('int lower upper swap',Y,"                    details[\"upper\"] = int(upper)","                    details[\"upper\"] = int(lower)",A,'V'),
('int plain float',Y,"            if flag_lower or flag_upper:\n                if lower","            if True:\n                if lower",A,'-'),
('float default swallowed',Y,"                details[\"default\"] = convert_scientific_notation(details[\"default\"])\n            except ValueError as e:\n                raise TypeError(\n                    f\" def","                details[\"default\"] = int(convert_scientific_notation(details[\"default\"]))\n            except ValueError as e:\n                raise TypeError(\n                    f\" def",A,'V'),
('float default dropped',Y,"                details[\"default\"] = convert_scientific_notation(details[\"default\"])\n            except ValueError as e:\n                raise TypeError(\n                    f\" def","                details.pop(\"default\")\n            except ValueError as e:\n                raise TypeError(\n                    f\" def",A,'V'),
("cat all numeric",Y,"            if e_flag:\n                details[\"choices\"][i]","            if True:\n                details[\"choices\"][i]",A,"V"),
('cat index',Y,"                details[\"choices\"][i] = converted_value","                details[\"choices\"][i-1] = converted_value",A,'V'),
('cat break',Y,"            pass  # If a ValueError occurs, simply continue to the next element","            break",A,'V'),
('cat default conv',Y,"        if e_flag is True:\n            details[\"default\"] = default","        details[\"default\"] = default if e_flag else str(extracted_default)",A,'V'),
('cat stale flag',Y,"    if \"default\" in details:\n        e_flag = False\n","    if \"default\" in details:\n",A,'V'),
('const always float',Y,"    if e_flag:\n        details = converted_value","    if e_flag or isinstance(details, int):\n        details = converted_value",A,'V'),
('deduce or',Y,"        if isinstance(details[\"lower\"], int) and isinstance(details[\"upper\"], int):","        if isinstance(details[\"lower\"], int) or isinstance(details[\"upper\"], int):",A,'V'),
('deduce enotation int',Y,"                param_type = \"float\"\n            else:\n                raise","                param_type = \"int\"\n            else:\n                raise",A,'V'),
('type case',Y,"return param_type.lower()","return param_type",A,'V'),
('integer alias',S,"if param_type in (\"int\", \"integer\"):","if param_type == \"int\":",A,'V'),
('float as int',S,"pipeline_space[name] = FloatParameter(**formatted_details)","pipeline_space[name] = FloatParameter(lower=formatted_details['lower'],upper=formatted_details['upper'],default=formatted_details.get('default'),log=formatted_details.get('log',False))",A,'V'),
('float ref',S,"                formatted_details = formatting_float(name, details)\n                pipeline_space[name] = FloatParameter(**formatted_details)","                pipeline_space[name] = FloatParameter(**formatting_float(name, details))",A,'-'),
('const dict',S,"                pipeline_space[name] = ConstantParameter(const_details)","                pipeline_space[name] = CategoricalParameter([const_details])",A,'V'),
('const ref',S,"                const_details = formatting_const(details)\n                pipeline_space[name] = ConstantParameter(const_details)","                pipeline_space[name] = ConstantParameter(value=formatting_const(details))",A,'-'),
('drop key',S,"        if len(config) == 1 and \"pipeline_space\" in config:\n","        if \"pipeline_space\" in config:\n",A,'V'),
('cs ordinal',S,"                hyperparameter.sequence,\n                default=hyperparameter.default_value","                hyperparameter.sequence[1:],\n                default=hyperparameter.default_value",A,'V'),
('cs log',S,"                upper=hyperparameter.upper,\n                log=hyperparameter.log,\n                default=hyperparameter.default_value,\n            )\n        else","                upper=hyperparameter.upper,\n                default=hyperparameter.default_value,\n            )\n        else",A,'V'),
('cs float',S,"            parameter = FloatParameter(\n                lower=hyperparameter.lower,\n                upper=hyperparameter.upper,\n                log","            parameter = FloatParameter(\n                lower=hyperparameter.lower,\n                upper=hyperparameter.default_value,\n                log",A,'V'),
('cs cond',S,"if any(configspace.get_conditions()) or any(","if any(configspace.get_conditions()) and any(",A,'V'),
('cs forb',S,"if any(configspace.get_conditions()) or any(configspace.get_forbiddens()):","if any(configspace.get_conditions()):",A,'V'),
('cs ref',S,"        pipeline_space[hyperparameter.name] = parameter\n    return","        pipeline_space.update({hyperparameter.name: parameter})\n    return",A,'-'),
('mixed lost',A_,"new_pipeline_space = {**new_pipeline_space, **config_space_parameters}","new_pipeline_space = config_space_parameters",A,'V'),
('mixed skip',A_,"            else:\n                new_pipeline_space[key] = value\n","            elif not new_pipeline_space:\n                new_pipeline_space[key] = value\n",A,'V'),
('mixed ref',A_,"new_pipeline_space = {**new_pipeline_space, **config_space_parameters}","new_pipeline_space.update(config_space_parameters)",A,'-'),
('names strip',S,"            if param_type in (\"int\", \"integer\"):","            name = name.strip()\n            if param_type in (\"int\", \"integer\"):",A,'-'),
('names lower',S,"            param_type = deduce_type(name, details)\n","            param_type = deduce_type(name, details)\n            if name in pipeline_space or name == 'b':\n                continue\n",A,'V'),
('loop ref',S,"        for name, details in config.items():  # type: ignore\n","        for name in config:  # type: ignore\n            details = config[name]\n",A,'-'),
('sci ref',Y,"    if show_usage_flag is True:\n        return float(value), flag\n    else:\n        return float(value)","    number = float(value)\n    if not show_usage_flag:\n        return number\n    return number, flag",A,'-'),
]

H='neps/search_spaces/hyperparameters/'
F=H+'float.py';I=H+'integer.py';K=H+'categorical.py';N=H+'numerical.py';Q=H+'constant.py'
A='space.hp_set_value space.hp_set_default space.hp_init space.hp_clone space.hp_sample_value space.hp_derive'
MUTS=[
('f lower only',F,"if not self.lower <= value <= self.upper","if not self.lower <= value",A,'V'),
('f strict',F,"if not self.lower <= value <= self.upper","if not self.lower < value < self.upper",A,'V'),
('f norm old',F,"        value = float(value)\n        self._value = value\n        self.normalized_value = self.value_to_normalized(value)","        self.normalized_value = self.value_to_normalized(self._value) if self._value is not None else self.value_to_normalized(value)\n        self._value = float(value)",A,'V'),
('f store before check',F,"        if not self.lower <= value <= self.upper","        self._value = value\n        if not self.lower <= value <= self.upper",A,'V'),
('f default no prior',F,"        self.default = float(default)\n        self.has_prior = True","        self.default = float(default)",A,'V'),
('f default log',F,"        if self.log:\n            self.log_default = np.log(self.default)","        if self.log and self.log_default is None:\n            self.log_default = np.log(self.default)",A,'V'),
('f clear default log',F,"            self.has_prior = False\n            self.log_default = None\n","            self.has_prior = False\n",A,'V'),
('f default clear prior',F,"            self.default = None\n            self.has_prior = False\n","            self.default = None\n",A,'V'),
('i float after',I,"        self.float_hp.set_value(value)\n        self._value = value","        self._value = value",A,'V'),
('i clear',I,"            self.float_hp.set_value(None)\n            return","            return",A,'V'),
('i load_from',I,"        self.set_value(int(np.rint(value)))","        self._value = int(np.rint(value))",A,'V'),
('i no check',I,"        if not self.lower <= value <= self.upper:","        if not self.lower - 1 <= value <= self.upper:",A,'V'),
('i widen',I,"self.lower - 0.499999","self.lower - 0.6",A,'V'),
('i part default',I,"            default=default,\n            default_confidence=default_confidence,\n        )\n\n    def __repr__","            default=None,\n            default_confidence=default_confidence,\n        )\n\n    def __repr__",A,'V'),
('i clone part score',I,"        clone.float_hp.default_confidence_score = self.float_hp.default_confidence_score\n","",A,'V'),
('i clone log',I,"            upper=self.upper,\n            log=self.log,\n            is_fidelity=self.is_fidelity,\n            default=self.default,\n            default_confidence=self.default_confidence_choice","            upper=self.upper,\n            is_fidelity=self.is_fidelity,\n            default=self.default,\n            default_confidence=self.default_confidence_choice",A,'V'),
('k index',K,"        value_index = self.choices.index(value)\n        self._value = value","        value_index = self.choices.index(value) if value in self.choices else 0\n        self._value = value",A,'V'),
('k index stale',K,"        self._value_index = value_index\n        self.normalized_value","        self.normalized_value",A,'V'),
('k default idx',K,"            self._default_index = None\n            self.has_prior = False","            self.has_prior = False",A,'V'),
('k default check',K,"        if default not in self.choices:\n            raise ValueError(\n                f\"Default value {default} is not in the provided choices {self.choices}\"\n            )\n\n        self.default = default\n        self._default_index = self.choices.index(default)","        self.default = default\n        self._default_index = self.choices.index(default)",A,'V'),
('k clone value',K,"        if self.value is not None:\n            clone.set_value(self.value)","        if self.value:\n            clone.set_value(self.value)",A,'V'),
('k crossover in place',K,"        child1 = parent1.clone()","        child1 = parent1",A,'V'),
('k sample',K,"return self.choices[np.random.choice(indices)]","return np.random.choice(self.choices)",A,'-'),
('k sample2',K,"return self.choices[np.random.choice(indices)]","return np.random.choice(indices)",A,'V'),
('k uniq',K,"        if not all_unique(choices):","        if not all_unique(choices) and len(choices) > 2:",A,'V'),
('k one',K,"if len(choices) <= 1","if len(choices) < 1",A,'V'),
('k init def',K,"if default is not None and default not in choices:","if default and default not in choices:",A,'V'),
('n lt',N,"if lower >= upper","if lower > upper",A,'V'),
('n log',N,"if log and (lower <= 0 or upper <= 0)","if log and (lower < 0 or upper <= 0)",A,'V'),
('n log ref',N,"if log and (lower <= 0 or upper <= 0)","if log and lower <= 0",A,'-'),
('n def',N,"if default is not None and not lower <= default <= upper","if default and not lower <= default <= upper",A,'V'),
('n has prior',N,"self.has_prior: bool = self.default is not None","self.has_prior: bool = bool(self.default)",A,'V'),
('n logdef',N,"float(np.log(self.default)) if self.default is not None else None","float(np.log(self.default)) if self.default else None",A,'V'),
('n conf',N,"        self.default_confidence_score: float = self.DEFAULT_CONFIDENCE_SCORES[\n            default_confidence\n        ]","        self.default_confidence_score: float = self.DEFAULT_CONFIDENCE_SCORES[\n            'low'\n        ]",A,'V'),
('q set',Q,"        if value != self._value:\n            raise","        if value is not None and value != self._value:\n            raise",A,'V'),
('n mut parent',N,"            child = self.sample()\n        elif","            parent.set_value(self.sample_value()); child = parent\n        elif",A,'V'),
('f sample noclip',F,"","",A,'-'),
('f ref guard',F,"        if not self.lower <= value <= self.upper:\n            cls_name","        if value < self.lower or self.upper < value:\n            cls_name",A,'-'),
('f ref helper',F,"            )\n\n        value = float(value)\n        self._value = value\n        self.normalized_value = self.value_to_normalized(value)","            )\n\n        self._store(float(value))\n\n    def _store(self, v: float) -> None:\n        self._value, self.normalized_value = v, self.value_to_normalized(v)",A,'-'),
('k ref if',K,"        # NOTE: Raises if not a valid choice, in which case nothing should change\n        value_index = self.choices.index(value)","        if value not in self.choices:\n            raise ValueError('x')\n        value_index = self.choices.index(value)",A,'-'),
('k ref enumerate',K,"        # NOTE: Raises if not a valid choice, in which case nothing should change\n        value_index = self.choices.index(value)","        for value_index, c in enumerate(self.choices):\n            if c == value:\n                break\n        else:\n            raise ValueError('x')",A,'-'),
('i ref clone deepcopy',I,"        clone = self.__class__(\n            lower=self.lower,\n            upper=self.upper,\n            log=self.log,\n            is_fidelity=self.is_fidelity,\n            default=self.default,\n            default_confidence=self.default_confidence_choice,\n        )\n        clone.default_confidence_score = self.default_confidence_score\n        clone.float_hp.default_confidence_score = self.float_hp.default_confidence_score\n        if self.value is not None:\n            clone.set_value(self.value)\n\n        return clone","        import copy\n        return copy.deepcopy(self)",A,'-'),
('i ref clone kw',I,"        clone = self.__class__(\n            lower=self.lower,\n            upper=self.upper,\n            log=self.log,\n            is_fidelity=self.is_fidelity,\n            default=self.default,\n            default_confidence=self.default_confidence_choice,\n        )","        kw = dict(log=self.log, is_fidelity=self.is_fidelity, default=self.default, default_confidence=self.default_confidence_choice)\n        clone = IntegerParameter(self.lower, self.upper, **kw)",A,'-'),
('n ref init',N,"        if self.log:\n            self.log_bounds = (float(np.log(lower)), float(np.log(upper)))\n            self.log_default = (\n                float(np.log(self.default)) if self.default is not None else None\n            )","        if self.log:\n            self.log_bounds = (float(np.log(self.lower)), float(np.log(self.upper)))\n            if self.default is not None:\n                self.log_default = float(np.log(self.default))",A,'-'),
('i ref default try',I,"            _default = int(round(default))\n","            _default = int(np.rint(default))\n            if not self.lower <= _default <= self.upper:\n                raise ValueError('x')\n",A,'-'),
('i default order',I,"            self.float_hp.set_default(_default)\n            self.default = _default\n","            self.default = _default\n            self.float_hp.set_default(_default)\n",A,'V'),
]

D='neps/optimizers/bayesian_optimization/acquisition_functions/'
PI=D+'pibo.py'
CC=D+'cost_cooling.py'
W=D+'weighted_acquisition.py'
G='neps/optimizers/bayesian_optimization/models/gp.py'
B='neps/optimizers/bayesian_optimization/optimizer.py'
SP='neps/optimizers/multi_fidelity/sampling_policy.py'
A='acq.*'
MUTS=[
('plus exponent',PI,"prior.log_prob(X, frm=x_domain) * prior_exponent","prior.log_prob(X, frm=x_domain) + prior_exponent",A,'V'),
('lin exponent',PI,".pow(prior_exponent)"," * prior_exponent",A,'V'),
('lin in log',PI,"return acq_values + weighted_log_probs","return acq_values * weighted_log_probs.exp()",A,'V'),
('flip log',PI,"if acq._log:","if not acq._log:",A,'V'),
('prior domain',PI,"prior.log_prob(X, frm=x_domain) * prior_exponent","prior.log_prob(X, frm=prior.domains) * prior_exponent",A,'V'),
('pibo ref',PI,"        weighted_log_probs = prior.log_prob(X, frm=x_domain) * prior_exponent\n        return acq_values + weighted_log_probs","        probs = prior.prob(X, frm=x_domain)\n        return acq_values.add(probs.pow(prior_exponent).log())",A,'-'),
('pibo ref2',PI,"    weighted_probs = prior.prob(X, frm=x_domain).pow(prior_exponent)\n    return acq_values * weighted_probs","    log_weight = prior.log_prob(X, frm=x_domain).mul(prior_exponent)\n    return log_weight.exp() * acq_values",A,'-'),
('pibo lambda',PI,"""        apply_weight=partial(
            apply_pibo_acquisition_weight,
            prior=prior,
            x_domain=x_domain,
            prior_exponent=prior_exponent,
        ),""","""        apply_weight=lambda values, X, acq: apply_pibo_acquisition_weight(
            values, X, acq, prior=prior, x_domain=x_domain, prior_exponent=prior_exponent
        ),""",A,'-'),
('pibo closure',PI,"    return WeightedAcquisition(","    def weigh(values, X, acq):\n        return apply_pibo_acquisition_weight(values, X, acq, prior=prior, x_domain=x_domain, prior_exponent=prior_exponent)\n    return WeightedAcquisition(acq=acq_fn, apply_weight=weigh)\n    return WeightedAcquisition(",A,'-'),
('pibo partial exp',PI,"            prior_exponent=prior_exponent,\n        ),","            prior_exponent=1 / prior_exponent,\n        ),",A,'V'),
('cost plus',CC,"return acq_values - w","return acq_values + w",A,'V'),
('cost log base',CC,"w = alpha * cost.log()","w = alpha * cost.log2()",A,'V'),
('cost div all',CC,"return torch.where(acq_values > 0, acq_values / w, acq_values * w)","return acq_values / w",A,'V'),
('cost where flip',CC,"torch.where(acq_values > 0,","torch.where(acq_values < 0,",A,'V'),
('cost alpha',CC,"alpha=1 - used_budget_percentage","alpha=used_budget_percentage",A,'V'),
('cost mean',CC,"else cost.sum(dim=-1)","else cost.mean(dim=-1)",A,'V'),
('cost ref',CC,"    w = cost.pow(alpha)\n    return torch.where(acq_values > 0, acq_values / w, acq_values * w)","    w = torch.exp(cost.log() * alpha)\n    cooled = acq_values / w\n    return torch.where(acq_values <= 0, acq_values * w, cooled)",A,'-'),
('cost ref2',CC,"        w = alpha * cost.log()\n        return acq_values - w","        return acq_values - cost.pow(alpha).log()",A,'-'),
('fw swap',W,"            weighted_acq_values = self.apply_weight(acq_values, X, self.acq)\n            q_reduced_acq = self.acq._q_reduction(weighted_acq_values)\n","            q_reduced_acq = self.acq._q_reduction(acq_values)\n            q_reduced_acq = self.apply_weight(q_reduced_acq, X, self.acq)\n",A,'V'),
('fw nowt',W,"        return weighted_acq_values.squeeze(-1)","        return acq_values.squeeze(-1)",A,'V'),
('fw ref',W,"        acq_values = self.acq(X).unsqueeze(-1)\n        weighted_acq_values = self.apply_weight(acq_values, X, self.acq)\n        return weighted_acq_values.squeeze(-1)","        acq = self.acq\n        return self.apply_weight(acq(X).unsqueeze(-1), X, acq).squeeze(-1)",A,'-'),
('fw nopend',W,"    @concatenate_pending_points\n","",A,'V'),
('pend twice',W,"            acq.set_X_pending(None)\n            self.set_X_pending(X_pending)","            self.set_X_pending(X_pending)",A,'V'),
('pend lost',W,"            self.set_X_pending(X_pending)","            self.set_X_pending(None)",A,'V'),
('pend ref',W,"""        if (X_pending := getattr(acq, "X_pending", None)) is not None:
            acq.set_X_pending(None)
            self.set_X_pending(X_pending)
        else:
            acq.set_X_pending(None)
            self.set_X_pending(None)
""","""        pending = getattr(acq, "X_pending", None)
        acq.set_X_pending(None)
        self.set_X_pending(pending)
""",A,'-'),
('log const',W,"self._log = acq._log","self._log = False",A,'V'),
('gp dom',G,"            x_domain=encoder.domains,\n        )","            x_domain=prior.domains,\n        )",A,'V'),
('gp exp',G,"prior_exponent=pibo_exp_term,","prior_exponent=1.0,",A,'V'),
('gp model',G,"            model=cost_gp,","            model=gp,",A,'V'),
('gp share',G,"used_budget_percentage=cost_percentage_used,","used_budget_percentage=1 - cost_percentage_used,",A,'V'),
('bo lt',B,"prior = None if pibo_exp_term < 1e-4 else self.prior","prior = None if pibo_exp_term > 1e-4 else self.prior",A,'V'),
('bo grow',B,"return math.exp(-n_bo_samples / ndims)","return math.exp(n_bo_samples / ndims)",A,'V'),
('bo swap',B,"return math.exp(-n_bo_samples / ndims)","return math.exp(-ndims / max(n_bo_samples, 1))",A,'V'),
('bo const',B,"                n_sampled, encoder.ncols, len(self.init_design)","                len(self.init_design), encoder.ncols, len(self.init_design)",A,'V'),
('bo share',B,"cost_percent = budget_info.used_cost_budget / budget_info.max_cost_budget","cost_percent = budget_info.max_cost_budget / budget_info.used_cost_budget",A,'V'),
('bo ref',B,"            prior = None if pibo_exp_term < 1e-4 else self.prior","            if pibo_exp_term >= 1e-4:\n                prior = self.prior",A,'-'),
('bo ref2',B,"    n_bo_samples = n_sampled_already - initial_design_size\n    return math.exp(-n_bo_samples / ndims)","    return math.exp((initial_design_size - n_sampled_already) / ndims)",A,'-'),
('mp lt',SP,"if pibo_exp_term >= significant_lower_bound:","if pibo_exp_term < significant_lower_bound:",A,'V'),
('mp grow',SP,"pibo_exp_term = 10 / decay_t","pibo_exp_term = decay_t / 10",A,'V'),
('mp keep',SP,"        self._acq = acq\n","        self._acq = base\n",A,'V') ,
('mp dom',SP,"x_domain=self._encoder.domains","x_domain=self.prior.domains",A,'V'),
('mp ref',SP,"            if pibo_exp_term >= significant_lower_bound:\n","            if not significant_lower_bound > pibo_exp_term:\n",A,'-'),
]
MUTS=[(n,[(SP,"        # If we have a prior, wrap","        base = acq\n        # If we have a prior, wrap"),(SP,"        self._acq = acq\n","        self._acq = base\n")],None,None,A,'V') if n=='mp keep' else (n,f,o,w,a,e) for n,f,o,w,a,e in MUTS]

G='neps/optimizers/bayesian_optimization/models/gp.py'
A='gpmodel.*'
MUTS=[
('bounds swap',G,"torch.tensor([lower, upper], dtype","torch.tensor([upper, lower], dtype",A,'V'),
('upper lower',G,"upper = [domain.upper for","upper = [domain.lower for",A,'V'),
('bounds T ref',G,"bounds = torch.tensor([lower, upper], dtype=torch.float64)","bounds = torch.tensor(list(zip(lower, upper)), dtype=torch.float64).T",A,'-'),
('bounds unit',G,"    bounds = torch.tensor([lower, upper], dtype=torch.float64)","    bounds = torch.tensor([[0.0] * len(lower), [1.0] * len(upper)], dtype=torch.float64)",A,'V'),
('bounds pairs ref',G,"    lower = [domain.lower for domain in encoder.domains]\n    upper = [domain.upper for domain in encoder.domains]\n    bounds = torch.tensor([lower, upper], dtype=torch.float64)","    bounds = torch.stack([torch.tensor([d.lower for d in encoder.domains], dtype=torch.float64), torch.tensor([d.upper for d in encoder.domains], dtype=torch.float64)])",A,'-'),
('range -1',G,"for i in range(transformer.domain.cardinality)","for i in range(transformer.domain.cardinality - 1)",A,'V'),
('range 1',G,"for i in range(transformer.domain.cardinality)","for i in range(1, transformer.domain.cardinality)",A,'V'),
('one cat',G,"fixed_cats = [{col: i} for i in choice_indices]","fixed_cats = [{0: i} for i in choice_indices]",A,'V'),
('zip not product',G,"for combo in product(*cats.values())","for combo in zip(*cats.values())",A,'V'),
('enum col',G,"        encoder.index_of[name]: [\n            float(i)","        col: [\n            float(i)",A,'V') if 0 else ('cats sub',G,"name: t for name, t in encoder.transformers.items() if t.domain.is_categorical","name: t for name, t in list(encoder.transformers.items())[1:] if t.domain.is_categorical",A,'V'),
('gt',G,"if n_combos > maximum_allowed","if n_combos >= maximum_allowed",A,'V'),
('sum',G,"lambda x, y: x * y,","lambda x, y: x + y,",A,'V'),
('q',G,"        q=n_candidates_required,\n        fixed","        q=1,\n        fixed",A,'V'),
('prod ref',[(G,"import logging\n","import logging\nimport math\n"),(G,"""reduce(
        lambda x, y: x * y,  # type: ignore
        [t.domain.cardinality for t in cat_transformers.values()],
        1,
    )""","math.prod(t.domain.cardinality for t in cat_transformers.values())")],None,None,A,'-'),
('one branch ref',G,"""    if len(cats) == 1:
        col, choice_indices = next(iter(cats.items()))
        fixed_cats = [{col: i} for i in choice_indices]
    else:
        fixed_cats = [
            dict(zip(cats.keys(), combo, strict=False))
            for combo in product(*cats.values())
        ]
""","""    fixed_cats = [dict(zip(cats, combo)) for combo in product(*cats.values())]
""",A,'-'),
('loop ref',G,"""    if len(cats) == 1:
        col, choice_indices = next(iter(cats.items()))
        fixed_cats = [{col: i} for i in choice_indices]
    else:
        fixed_cats = [
            dict(zip(cats.keys(), combo, strict=False))
            for combo in product(*cats.values())
        ]
""","""    fixed_cats = [{}]
    for col, values in cats.items():
        fixed_cats = [{**fixed, col: v} for fixed in fixed_cats for v in values]
""",A,'-'),
('mixed to plain',G,"return optimize_acqf_mixed(","return optimize_acqf(",A,'V'),
('no fixed',G,"        fixed_features_list=fixed_cats,\n","",A,'V'),
('negate cats',G,"if not any(cat_transformers):","if any(cat_transformers):",A,'V'),
('kernel neg',G,"if isinstance(transformer, CategoricalToIntegerTransformer):","if not isinstance(transformer, CategoricalToIntegerTransformer):",A,'V'),
('kernel app',G,"            numerics.append(encoder.index_of[hp_name])","            numerics.append(len(numerics))",A,'V'),
('kernel active',G,"        active_dims=tuple(numerics),\n","",A,'V'),
('kernel cat active',G,"len(categoricals), active_dims=tuple(categoricals)","len(categoricals), active_dims=tuple(numerics)",A,'V'),
('kernel N',G,"            ard_num_dims=N,","            ard_num_dims=1,",A,'V'),
('kernel drop',G,"kernel = numeric_kernel + cat_kernel","kernel = numeric_kernel",A,'V'),
('kernel dims param',G,"            active_dims=active_dims,\n            lengthscale","            lengthscale",A,'V'),
('kernel times ref',G,"kernel = numeric_kernel + cat_kernel","kernel = gpytorch.kernels.AdditiveKernel(numeric_kernel, cat_kernel)",A,'-'),
('kernel comp ref',G,"""    numerics: list[int] = []
    categoricals: list[int] = []
    for hp_name, transformer in encoder.transformers.items():
        if isinstance(transformer, CategoricalToIntegerTransformer):
            categoricals.append(encoder.index_of[hp_name])
        else:
            numerics.append(encoder.index_of[hp_name])
""","""    categoricals = [encoder.index_of[n] for n, t in encoder.transformers.items() if t.domain.is_categorical]
    numerics = [i for i in range(encoder.ncols) if i not in categoricals]
""",A,'-'),
('no cats branch',G,"if len(categoricals) == 0:","if len(numerics) == 0:",A,'V'),
('one cat',G,"if len(numerics) == 0:","if len(numerics) <= 1:",A,'V'),
('x y',G,"train_X=x,\n            train_Y=y,\n            covar","train_X=x,\n            train_Y=x,\n            covar",A,'V'),
('transform',G,"train_X=x, train_Y=y, covar_module=kernel, outcome_transform=y_transform","train_X=x, train_Y=y, covar_module=kernel, outcome_transform=Standardize(m=1)",A,'V'),
('nofit',G,"    fit_gpytorch_mll(ExactMarginalLogLikelihood(likelihood=gp.likelihood, model=gp))\n","",A,'V'),
('nofit cost',G,"        fit_gpytorch_mll(\n            ExactMarginalLogLikelihood(likelihood=cost_gp.likelihood, model=cost_gp)\n        )\n","",A,'V'),
('fit wrong',G,"            ExactMarginalLogLikelihood(likelihood=cost_gp.likelihood, model=cost_gp)","            ExactMarginalLogLikelihood(likelihood=gp.likelihood, model=gp)",A,'V'),
('mask',G,"x_train_cost = x_train[not_missing_mask]","x_train_cost = x_train[missing_costs]",A,'V'),
('mask2',G,"y_train_cost = costs[not_missing_mask]","y_train_cost = costs",A,'V'),
('ret',G,"    return candidates\n","    return _scores\n",A,'V'),
('ncand',G,"_n = n_candidates_required if n_candidates_required is not None else 1","_n = 1",A,'V'),
('ncand2',G,"_n = n_candidates_required if n_candidates_required is not None else 1","_n = n_candidates_required or 1",A,'-'),
('mll var ref',G,"    fit_gpytorch_mll(ExactMarginalLogLikelihood(likelihood=gp.likelihood, model=gp))\n","    mll = ExactMarginalLogLikelihood(gp.likelihood, gp)\n    fit_gpytorch_mll(mll)\n",A,'-'),
]

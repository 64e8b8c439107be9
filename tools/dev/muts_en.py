E='neps/search_spaces/encoding.py'; D='neps/search_spaces/domain.py'; Q='neps/sampling/priors.py'; I='neps/optimizers/initial_design.py'
A='encoding.*'
MUTS=[
# bugs
('dom_unsorted',E,'        return list(self.domain_of.values())','        return sorted(self.domain_of.values(), key=lambda d: d.is_categorical)',A,'V'),
('index_before_sort',E,"        self.transformers = dict(transformers)\n",'',A,'-'),
('decode_lookup_off',E,'            tensor = x[:, lookup]','            tensor = x[:, lookup - 1]',A,'V'),
('decode_drop_consts',E,'        values.update(constants)\n','',A,'V'),
('decode_consts_zip',E,'{name: [v] * N for','{name: [v] for',A,'V'),
('int_norm_swapped',E,"                    transformers[name] = CategoricalToIntegerTransformer(hp.choices)","                    transformers[name] = CategoricalToIntegerTransformer(sorted(hp.choices))",A,'-'),
('lookup_from1',E,'{c: i for i, c in enumerate(self.choices)}','{c: i for i, c in enumerate(self.choices, 1)}',A,'V'),
('lookup_sorted',E,'{c: i for i, c in enumerate(self.choices)}','{c: i for i, c in enumerate(sorted(self.choices))}',A,'V'),
('unit_scale',E,'x * (len(self.choices) - 1)','x * len(self.choices)',A,'V'),
('bins_off',E,'            bins=len(self.choices),','            bins=len(self.choices) - 1,',A,'V'),
('minmax_dec',E,'        x = self.original_domain.cast(x, frm=self.domain)','        x = self.domain.cast(x, frm=self.original_domain)',A,'V'),
('q_unit_mism',D,'            x = quantization_levels / (q - 1)\n\n        return x.type(dtype)','            x = quantization_levels / q\n\n        return x.type(dtype)',A,'V'),
('no_log_from',D,'            x = torch.exp(x)\n        else:','            pass\n        else:',A,'V'),
('nolower',D,'            x = x * (upper - lower) + lower\n            x = torch.exp(x)','            x = x * upper + lower\n            x = torch.exp(x)',A,'V'),
('same_dom_noscale',D,'if same_bounds and same_log_bounds and same_cardinality:','if same_bounds and same_cardinality:',A,'V'),
('same_dom_nocard',D,'if same_bounds and same_log_bounds and same_cardinality:','if same_bounds and same_log_bounds:',A,'V'),
('card_off',D,'int(self.upper - self.lower + 1)','int(self.upper - self.lower)',A,'V'),
('indices_off',D,'Domain.integer(0, n - 1, is','Domain.integer(0, n, is',A,'V'),
('log_lower_only',D,'log_bounds=(math.log(lower), math.log(upper)) if log else None,\n            bins','log_bounds=(math.log(lower), math.log(upper)) if log and lower > 1e-3 else None,\n            bins',A,'V'),
('translate_frm0',D,'t.cast(x[..., i], frm=f, dtype=dtype)','t.cast(x[..., i], frm=frm[0], dtype=dtype)',A,'V'),
('prior_default',Q,'hp._default_index if isinstance(hp, CategoricalParameter) else hp.default','hp.default',A,'V'),
('prior_skip',Q,'                centers.append(None)\n                continue','                continue',A,'V'),
('prior_order',I,'params[name] for name in encoder.transformers','params.values()',A,'V'),
('prior_conf',Q,'confidence_score = _mapping[confidence_str]','confidence_score = 1 - _mapping[confidence_str]',A,'V'),
('prior_idx',Q,'first_dist.log_prob(translated_x[..., first_i])','first_dist.log_prob(translated_x[..., self._meaningful_ixs[first_i]])',A,'V'),
('prior_frm',Q,'frm if isinstance(frm, Domain) else [frm[i] for i in self._meaningful_ixs]','frm if isinstance(frm, Domain) else frm[: len(self._meaningful_ixs)]',A,'V'),
('prior_weight',Q,'weights[int(center_index)] = conf','weights[int(center_index)] = distributed_weight',A,'V'),
('prior_scale',Q,'scale = torch.tensor(1 - conf','scale = torch.tensor(conf',A,'V'),
('prior_unit',Q,'unit_center = domain.to_unit_one(center)','unit_center = center',A,'V'),
('prior_catdom',Q,'                    domain=domain,\n','                    domain=UNIT_FLOAT_DOMAIN,\n',A,'V'),
# refactorings
('r_enum',E,'''        self.index_of = {name: i for i, name in enumerate(self.transformers.keys())}
''','''        self.index_of = {}
        for position, key in enumerate(self.transformers):
            self.index_of[key] = position
''',A,'-'),
('r_domains',E,'        return list(self.domain_of.values())','        return [self.transformers[name].domain for name in self.index_of]',A,'-'),
('r_encode',E,'''            lookup = self.index_of[hp_name]

            # Encode directly into buffer
            transformer.encode(
                values,
                out=buffer[:, lookup],
                dtype=dtype,
                device=device,
            )
''','''            column = buffer[:, self.index_of[hp_name]]
            transformer.encode(values, out=column, dtype=dtype, device=device)
''',A,'-'),
('r_decode',E,'''        return [
            dict(zip(keys, vals, strict=False))
            for vals in zip(*values.values(), strict=False)
        ]''','''        return [{key: values[key][i] for key in keys} for i in range(N)]''',A,'-'),
('r_isinst',E,'''            match hp:
                case FloatParameter() | IntegerParameter():
                    transformers[name] = MinMaxNormalizer(hp.domain)  # type: ignore
                case CategoricalParameter():
                    transformers[name] = CategoricalToIntegerTransformer(hp.choices)
                case _:
                    raise ValueError(
                        f"Unsupported parameter type: {type(hp)}. If hp is a constant, "
                        " please provide it as `constants=`."
                    )
''','''            if isinstance(hp, CategoricalParameter):
                transformer = CategoricalToIntegerTransformer(hp.choices)
            elif isinstance(hp, (FloatParameter, IntegerParameter)):
                transformer = MinMaxNormalizer(hp.domain)
            else:
                raise ValueError(f"Unsupported parameter type: {type(hp)}")
            transformers[name] = transformer
''',A,'-'),
('r_quant',[(D,'''            quantization_levels = torch.floor(x * q).clip(0, q - 1)
            x = quantization_levels / (q - 1)

        return x.type(dtype)''','''            x = _quantize(x, q)

        return x.type(dtype)'''),(D,'''            quantization_levels = torch.floor(x * q).clip(0, q - 1)
            x = quantization_levels / (q - 1)

        # Now''','''            x = _quantize(x, q)

        # Now'''),(D,'''@dataclass(frozen=True)
class Domain''','''def _quantize(x, q):
    levels = torch.clamp(torch.floor(x * q), min=0, max=q - 1)
    return levels / (q - 1)


@dataclass(frozen=True)
class Domain''')],'','',A,'-'),
('r_lohi',D,'''        if self.log_bounds is not None:
            lower, upper = self.log_bounds
            x = x * (upper - lower) + lower
            x = torch.exp(x)
        else:
            lower, upper = self.lower, self.upper
            x = x * (upper - lower) + lower
''','''        lower, upper = self.log_bounds or (self.lower, self.upper)
        x = lower + (upper - lower) * x
        if self.log_bounds is not None:
            x = x.exp()
''',A,'-'),
('r_cast',D,'''        if same_bounds and same_log_bounds and same_cardinality:
            if self.round:
                x = torch.round(x)
            return x.type(dtype)
''','''        if (self.lower, self.upper, self.log_bounds, self.cardinality) == (frm.lower, frm.upper, frm.log_bounds, frm.cardinality):
            values = torch.round(x) if self.round else x
            return values.type(dtype)
''',A,'-'),
('r_card',D,'''        if self.bins:
            cardinality = self.bins
        elif self.round:
            cardinality = int(self.upper - self.lower + 1)
''','''        if self.bins:
            cardinality = self.bins
        elif self.round:
            cardinality = 1 + int(self.upper) - int(self.lower)
''',A,'-'),
('r_from_params',Q,'''            center = (
                hp._default_index if isinstance(hp, CategoricalParameter) else hp.default
            )
            centers.append((center, confidence_score))
''','''            if isinstance(hp, CategoricalParameter):
                center = hp._default_index
            else:
                center = hp.default
            centers.append((center, _mapping[hp.default_confidence_choice]))
''',A,'-'),
('r_logprob',Q,'''        itr = iter(enumerate(self._meaningful_dists))
        first_i, first_dist = next(itr)
        log_probs = first_dist.log_prob(translated_x[..., first_i])

        for i, dist in itr:
            log_probs = log_probs + dist.log_prob(translated_x[..., i])

        return log_probs
''','''        log_probs = self._meaningful_dists[0].log_prob(translated_x[..., 0])
        for i, dist in enumerate(self._meaningful_dists[1:], start=1):
            log_probs = log_probs + dist.log_prob(translated_x[..., i])

        return log_probs
''',A,'-'),
('r_sample',Q,'''        out = torch.empty(_out_shape, device=device, dtype=dtype)
        for i, dist in enumerate(self.distributions):
            out[..., i] = dist.distribution.sample(_n)

        return''','''        draws = [dist.distribution.sample(_n) for dist in self.distributions]
        out = torch.stack(draws, dim=-1)

        return''',A,'-'),
('lp_weight',Q,"            log_probs = log_probs + dist.log_prob(","            log_probs = log_probs + 0.5 * dist.log_prob(",A,'V'),
('lp_mean',Q,"        return log_probs\n","        return log_probs / len(self._meaningful_dists)\n",A,'V'),
('lp_last',Q,"            log_probs = log_probs + dist.log_prob(translated_x[..., i])","            log_probs = dist.log_prob(translated_x[..., i])",A,'V'),
('lp_stack',Q,'        log_probs = first_dist.log_prob(translated_x[..., first_i])\n\n        for i, dist in itr:\n            log_probs = log_probs + dist.log_prob(translated_x[..., i])\n',"        log_probs = torch.stack([dist.log_prob(translated_x[..., i]) for i, dist in [(first_i, first_dist), *itr]]).sum(dim=0)\n",A,'-'),
('lp_sum',Q,'        log_probs = first_dist.log_prob(translated_x[..., first_i])\n\n        for i, dist in itr:\n            log_probs = log_probs + dist.log_prob(translated_x[..., i])\n',"        log_probs = sum(dist.log_prob(translated_x[..., i]) for i, dist in [(first_i, first_dist), *itr])\n",A,'-'),
('lp_zero',Q,'        log_probs = first_dist.log_prob(translated_x[..., first_i])\n\n        for i, dist in itr:\n            log_probs = log_probs + dist.log_prob(translated_x[..., i])\n',"        log_probs = first_dist.log_prob(translated_x[..., first_i])\n        for i, dist in itr:\n            log_probs += dist.log_prob(translated_x[..., i])\n",A,'-'),
]

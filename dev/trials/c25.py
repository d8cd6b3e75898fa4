P='GPyOpt/interface/config_parser.py'; D='GPyOpt/interface/driver.py'; O='GPyOpt/interface/output.py'
TRIALS=[
 dict(id='c1',expect={'C25'},edits=[(P,'update_config(config_new, copy.deepcopy(default_config))','update_config(config_new, dict(default_config))')]),
 dict(id='c2',expect={'C25'},edits=[(P,'config_default[k] = v','config_default.setdefault(k, v)')]),
 dict(id='c3',expect={'C25'},edits=[(P,'if isinstance(v,dict) and k in config_default:','if isinstance(v,dict) or k in config_default:')]),
 dict(id='c4',expect={'C25'},edits=[(D,"60.*r_c['max-run-time']","r_c['max-run-time']")]),
 dict(id='c5',expect={'C25'},edits=[(D,"self.config['initialization']['num-eval']","self.config['model']['num_inducing']")]),
 dict(id='c6',expect={'C25'},edits=[(O,"elif self.clock[i]>0: self.clock[i] += -1","else: self.clock[i] += -1")]),
 dict(id='c7',expect={'C25'},edits=[(O,"self.clock[i] = self.data_savers[i].interval\n                \n","self.clock[i] = 1\n                \n")]),
 dict(id='c8',expect={'C25'},edits=[(O,"idx =  np.argmin(Y)","idx =  np.argmin(Y[-1])")]),
 dict(id='c9',expect={'C25'},edits=[(P,'"tolerance": 1e-8','"tolerance": 1e-6')]),
 dict(id='c10',expect={'C25'},edits=[(D,"eps = r_c['tolerance'], ","")]),
 dict(id='q1',props=['C25'],edits=[(P,"""    if any([isinstance(v, dict) for v in list(config_new.values())]):
        for k,v in list(config_new.items()):
            if isinstance(v,dict) and k in config_default:
                update_config(config_new[k],config_default[k])
            else:
                config_default[k] = v
    else:
        config_default.update(config_new)
""","""    for k, v in config_new.items():
        if isinstance(v,dict) and k in config_default:
            update_config(v, config_default[k])
        else:
            config_default[k] = v
""")]),
 dict(id='q2',props=['C25'],edits=[(P,"""            if isinstance(v,dict) and k in config_default:
                update_config(config_new[k],config_default[k])
            else:
                config_default[k] = v
""","""            nested = isinstance(v,dict)
            if not nested or k not in config_default:
                config_default[k] = v
                continue
            update_config(v,config_default[k])
""")]),
 dict(id='q3',props=['C25'],edits=[(O,"""        for i in range(len(self.data_savers)):
            if final:
                if self.clock[i]==-1: self.clock[i] = 0
            elif self.clock[i]>0: self.clock[i] += -1
            if self.clock[i]==0:
                self.data_savers[i].save_data(self.iters, self.times, self.offsets, self.Xs, self.Ys, bo)
                self.clock[i] = self.data_savers[i].interval
""","""        for i, saver in enumerate(self.data_savers):
            if final and self.clock[i] == -1:
                self.clock[i] = 0
            elif not final and self.clock[i] > 0:
                self.clock[i] -= 1
            if self.clock[i] != 0:
                continue
            saver.save_data(self.iters, self.times, self.offsets, self.Xs, self.Ys, bo)
            self.clock[i] = saver.interval
""")]),
 dict(id='q4',props=['C25'],edits=[(D,"""        r_c = self.config['resources']
        
        stop = False
        if converged==0:
            stop=True
        if r_c['maximum-iterations'] !='NA' and iters>= r_c['maximum-iterations']:
            stop = True
        if r_c['max-run-time'] != 'NA' and elapsed_time/60.>= r_c['max-run-time']:
            stop = True
        return stop
""","""        limits = self.config['resources']
        def reached(value, name):
            return limits[name] != 'NA' and value >= limits[name]
        return converged == 0 or reached(iters, 'maximum-iterations') or reached(elapsed_time / 60., 'max-run-time')
""")]),
 dict(id='q5',props=['C25'],edits=[(D,"""        model_args = deepcopy(self.config['model'])
        del model_args['type']
        from ..models import select_model
        
        return select_model(self.config['model']['type']).fromConfig(model_args)
""","""        from ..models import select_model
        model_args = deepcopy(self.config['model'])
        model_type = model_args.pop('type')
        return select_model(model_type).fromConfig(model_args)
""")]),
 dict(id='q6',props=['C25'],edits=[(D,"""        model_args = deepcopy(self.config['model'])
        del model_args['type']
        from ..models import select_model
        
        return""","""        from ..models import select_model
        model_args = {k: deepcopy(v) for k, v in self.config['model'].items() if k != 'type'}
        return""")]),
]

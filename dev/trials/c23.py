B='GPyOpt/core/bo.py'
TRIALS=[
 dict(id='r1',expect={'C23'},edits=[(B,'np.array(range(1, self.Y.shape[0] + 1))[:, None]','np.array(range(0, self.Y.shape[0]))[:, None]')]),
 dict(id='r2',expect={'C23'},edits=[(B,'np.hstack((iterations, self.Y, self.X))','np.hstack((iterations, self.X, self.Y))')]),
 dict(id='r3',expect={'C23'},edits=[(B,'str(self.X[np.argmin(self.Y),:]).strip','str(self.X[-1,:]).strip')]),
 dict(id='r4',expect={'C23'},edits=[(B,'self.X.shape[1] + 1)]\n','self.X.shape[0] + 1)]\n')]),
 dict(id='r5',expect={'C23'},edits=[(B,"with open(filename, 'w') as csv_file","with open(filename, 'a') as csv_file")]),
 dict(id='r6',expect={'C23'},edits=[(B,"data = [header] + results.tolist()\n        self._write_csv(models_file, data)","data = [header] + results.tolist()\n        self._write_csv(models_file, data[:-1])")]),
 dict(id='r7',expect={'C23'},edits=[(B,"if self.evaluations_file is not None:\n            self.save_evaluations","if self.evaluations_file is not None and self.num_acquisitions:\n            self.save_evaluations")]),
 dict(id='r8',expect={'C23'},edits=[(B,"str(len(self.space.get_continuous_dims()) )","str(len(self.space.get_discrete_dims()) )")]),
 dict(id='q1',props=['C23'],edits=[(B,"""           writer = csv.writer(csv_file, delimiter='\\t')
           writer.writerows(data)""","""           writer = csv.writer(csv_file, delimiter='\\t')
           for row in data:
               writer.writerow(row)""")]),
 dict(id='q2',props=['C23'],edits=[(B,"""            file.write('GPyOpt Version ' + str(GPyOpt.__version__) + '\\n')
            file.write('Date and time:               ' + time.strftime("%c")+'\\n')""","""            lines = ['GPyOpt Version ' + str(GPyOpt.__version__), 'Date and time:               ' + time.strftime("%c")]
            file.write('\\n'.join(lines) + '\\n')""")]),
 dict(id='q3',props=['C23'],edits=[(B,"""            file.write('GPyOpt Version ' + str(GPyOpt.__version__) + '\\n')
            file.write('Date and time:               ' + time.strftime("%c")+'\\n')""","""            for l in ['GPyOpt Version ' + str(GPyOpt.__version__), 'Date and time:               ' + time.strftime("%c")]:
                print(l, file=file)""")]),
 dict(id='q4',props=['C23'],edits=[(B,"""        header = ['Iteration', 'Y'] + ['var_' + str(k) for k in range(1, self.X.shape[1] + 1)]
""","""        header = ['Iteration', 'Y']
        for k in range(self.X.shape[1]):
            header.append('var_{}'.format(k + 1))
""")]),
 dict(id='q5',props=['C23'],edits=[(B,"""        iterations = np.array(range(1, self.Y.shape[0] + 1))[:, None]
        results = np.hstack((iterations, self.Y, self.X))""","""        iterations = np.arange(1, len(self.Y) + 1).reshape((-1, 1))
        results = np.concatenate([iterations, self.Y, self.X], axis=1)""")]),
 dict(id='q6',props=['C23'],edits=[(B,"""        data = [header] + results.tolist()
        self._write_csv(evaluations_file, data)""","""        data = [header]
        for row in results:
            data.append(list(row))
        self._write_csv(evaluations_file, data)""")]),
]

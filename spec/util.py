"""Reference definitions: output normalisation, costs, objective evaluation, duplicates."""
import time
import numpy as np
from GPyOpt.core.task.cost import constant_cost_withGradients
from GPyOpt.models.gpmodel import GPModel
from GPyOpt.util.general import spawn


def ref_normalize(Y, normalization_type='stats'):
    Y = np.asarray(Y, dtype=float)
    if np.max(Y.shape) != Y.size:
        raise NotImplementedError('shape')
    if normalization_type == 'stats':
        shift = Y - np.mean(Y)
        spread = np.std(Y)
        return shift / spread if spread > 0 else shift
    if normalization_type == 'maxmin':
        shift = Y - np.min(Y)
        spread = np.ptp(Y)
        return 2 * (shift / spread - 0.5) if spread > 0 else shift
    raise ValueError('type')


def ref_constant_cost(x):
    return np.ones((x.shape[0], 1)), np.zeros(x.shape)


def ref_cost_init(self, cost_withGradients):
    if cost_withGradients is None:
        self.cost_type = 'Constant cost'
        self.cost_withGradients = constant_cost_withGradients
    elif cost_withGradients == 'evaluation_time':
        self.cost_type = cost_withGradients
        self.cost_model = GPModel()
        self.cost_withGradients = self._cost_gp_withGradients
        self.num_updates = 0
    else:
        self.cost_type = 'User defined cost'
        self.cost_withGradients = cost_withGradients


def ref_cost_gp(self, x):
    if self.num_updates == 0:
        x = np.atleast_2d(x)
        return np.ones((x.shape[0], 1)), np.zeros(x.shape)
    m, s, dm, ds = self.cost_model.predict_withGradients(x)
    return np.exp(m), np.exp(m) * dm


def ref_cost_update(self, x, cost_x):
    if self.cost_type != 'evaluation_time':
        return
    times = np.log(np.asarray(cost_x).reshape(-1, 1))
    if self.num_updates == 0:
        X, C = x, times
    else:
        X = np.vstack((self.cost_model.model.X, x))
        C = np.vstack((self.cost_model.model.Y, times))
    self.num_updates = self.num_updates + 1
    self.cost_model.updateModel(X, C, None, None)


def ref_eval_func(self, x):
    values = np.empty((0, 1))
    times = []
    for i in range(len(x)):
        t0 = time.time()
        v = self.func(np.atleast_2d(x[i]))
        times.append(time.time() - t0)
        values = np.vstack((values, v))
    return values, times


def ref_known_points(self, space, zipped_X, pending_zipped_X=None, ignored_zipped_X=None):
    self.space = space
    known = set()
    known.update(tuple(x.flatten()) for x in zipped_X)
    if pending_zipped_X is not None:
        known.update(tuple(x.flatten()) for x in pending_zipped_X)
    if ignored_zipped_X is not None:
        known.update(tuple(x.flatten()) for x in ignored_zipped_X)
    self.unique_points = known


def ref_is_duplicate(self, zipped_x):
    return tuple(zipped_x.flatten()) in self.unique_points


def ref_is_unzipped_duplicate(self, unzipped_x):
    return tuple(self.space.zip_inputs(np.atleast_2d(unzipped_x)).flatten()) in self.unique_points


def ref_add_unzipped(self, unzipped_x):
    self.unique_points.add(tuple(self.space.zip_inputs(np.atleast_2d(unzipped_x)).flatten()))


def ref_evaluate(self, x):
    if self.n_procs == 1:
        values, times = self._eval_func(x)
    else:
        try:
            values, times = self._syncronous_batch_evaluation(x)
        except:
            if not hasattr(self, 'parallel_error'):
                self.parallel_error = True
            values, times = self._eval_func(x)
    return values, times


def ref_parallel(self, x):
    from multiprocessing import Process, Pipe
    workers = []
    for i in range(self.n_procs):
        mine, theirs = Pipe()
        process = Process(target=spawn(self._eval_func), args=(theirs, x[i::self.n_procs]))
        process.start()
        theirs.close()
        workers.append((mine, process))
    values = np.zeros((x.shape[0], 1))
    try:
        for i in range(self.n_procs):
            values[i::self.n_procs] = workers[i][0].recv()[0]
    finally:
        for mine, process in workers:
            mine.close()
        for mine, process in workers:
            process.join()
    return values, np.ones((x.shape[0], 1))


def ref_parallel_blocks(self, x):
    from multiprocessing import Process, Pipe
    workers = []
    for i in range(self.n_procs):
        mine, theirs = Pipe()
        process = Process(target=spawn(self._eval_func), args=(theirs, x[i * len(x) // self.n_procs:(i + 1) * len(x) // self.n_procs]))
        process.start()
        theirs.close()
        workers.append((mine, process))
    values = np.zeros((x.shape[0], 1))
    try:
        for i in range(self.n_procs):
            values[i * len(x) // self.n_procs:(i + 1) * len(x) // self.n_procs] = workers[i][0].recv()[0]
    finally:
        for mine, process in workers:
            mine.close()
        for mine, process in workers:
            process.join()
    return values, np.ones((x.shape[0], 1))


def ref_parallel_split(self, x):
    from multiprocessing import Process, Pipe
    workers = []
    for i in range(self.n_procs):
        mine, theirs = Pipe()
        process = Process(target=spawn(self._eval_func), args=(theirs, np.array_split(x, self.n_procs)[i]))
        process.start()
        theirs.close()
        workers.append((mine, process))
    values = []
    try:
        for i in range(self.n_procs):
            values.append(workers[i][0].recv()[0])
    finally:
        for mine, process in workers:
            mine.close()
        for mine, process in workers:
            process.join()
    return np.vstack(values), np.ones((x.shape[0], 1))


def ref_spawn(f):
    def work(pipe, x):
        pipe.send(f(x))
        pipe.close()
    return work

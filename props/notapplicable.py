"""Properties static analysis cannot decide here, with the reason."""
NA = {
    'C30': 'convergence depends on the objective, the fitted surrogate and the amount of sampling: an asymptotic statement about runtime quantities no static argument over this source bounds',
    'C31': 'accuracy of the iterative expectation-propagation approximation is a numerical question about runtime matrices; the source fixes the recurrence but not its error',
    'C32': 'posterior computation is delegated to GPy and scikit-learn, outside this repository; only the delegation is visible in the source (decided under C15)',
    'C33': 'global optimality of multi-start local optimisation depends on the runtime landscape of the acquisition; no sound static bound exists',
    'C34': 'that the samplers mix to the intended distribution is a statistical statement about runs of external samplers (GPy HMC, emcee)',
    'C35': 'the estimate is the maximum over a random sample refined by a local optimiser; whether it bounds the gradient everywhere depends on the runtime surrogate',
    'C36': 'the plots are judged by how rendered figures look; the source only shows which arrays reach matplotlib, which does not settle that they depict the run faithfully',
}

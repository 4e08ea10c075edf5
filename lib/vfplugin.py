import cvxpatch
cvxpatch.install()

PROPS = {}
INFO = {}


def prop(pid):
    def deco(f):
        PROPS.setdefault(pid, []).append(f)
        return f
    return deco


from rules import monomap, knn, persist, tree, build, paths, plugins, cloud, labels, metrics, server, loaders, bulk, sparse, diverge  # noqa

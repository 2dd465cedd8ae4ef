"""Model of the plotting library: what is drawn, shown and saved is recorded in CALLS."""
CALLS = []


class _Axes:
    def __init__(self):
        self.name = "axes"

    def plot(self, *args, **kwargs):
        CALLS.append(("plot", args, kwargs))

    def vlines(self, *args, **kwargs):
        CALLS.append(("vlines", args, kwargs))

    def set_xticks(self, *args, **kwargs):
        CALLS.append(("set_xticks", args, kwargs))

    def set_xlim(self, *args, **kwargs):
        CALLS.append(("set_xlim", args, kwargs))

    def set_ylabel(self, *args, **kwargs):
        CALLS.append(("set_ylabel", args, kwargs))

    def get_xaxis_transform(self):
        return None

    def _nothing(self, *args, **kwargs):
        return None

    set_ylim = set_xlabel = set_title = set_yticks = grid = legend = hlines = axhline = axvline = _nothing


class _Figure:
    def savefig(self, *args, **kwargs):
        CALLS.append(("savefig", args, kwargs))

    def show(self, *args, **kwargs):
        CALLS.append(("show", args, kwargs))

    def tight_layout(self, *args, **kwargs):
        return None

    def add_subplot(self, *args, **kwargs):
        return _Axes()


def subplots(*args, **kwargs):
    return _Figure(), _Axes()


def figure(*args, **kwargs):
    return _Figure()


def savefig(*args, **kwargs):
    CALLS.append(("savefig", args, kwargs))


def show(*args, **kwargs):
    CALLS.append(("show", args, kwargs))


def close(*args, **kwargs):
    return None


def tight_layout(*args, **kwargs):
    return None

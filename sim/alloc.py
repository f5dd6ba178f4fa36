"""Access to the numpy allocation seam (None when a check does not use it)."""
_mod = [None]
_installed = [False]


def set_module(m):
    _mod[0] = m


def available():
    return _mod[0] is not None


def arm(n, sticky=False):
    m = _mod[0]
    if not _installed[0]:
        m.install()
        _installed[0] = True
    m.arm(n, sticky)


def disarm():
    """Returns (allocations seen, failures delivered) since arm()."""
    m = _mod[0]
    if m is None or not _installed[0]:
        return (0, 0)
    return m.disarm()

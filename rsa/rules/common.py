"""Shared by the rule modules."""
import traceback

from ..interp import Budget
from ..model import AnchorError


def scenario(rep, name, fn, *a, **kw):
    """Run one scenario; a budget or interpreter limit makes it undecided, not a failure."""
    if not rep.mine():
        return None
    try:
        return fn(*a, **kw)
    except Budget as e:
        rep.undecided('budget', name, str(e))
    except AnchorError:
        raise
    except RecursionError as e:
        rep.undecided('recursion', name, str(e))
    except Exception as e:          # unsupported construct in changed code
        traceback.print_exc()
        rep.undecided('unsupported', name, '%s: %s' % (type(e).__name__, e))
    return None

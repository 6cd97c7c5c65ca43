"""Setup: make sure the interpreter and libraries are the expected ones, and that the oracles reject planted errors."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import h5py, jax, matplotlib, numpy as np, scipy  # noqa: E401,E402,F401
from rvmon import core, ref  # noqa: E402

R = core.Run("SELF", "quick", 1)
R.eq("a", [1.0, 2.0], [1.0, 2.0 + 1e-5], rtol=1e-7)
R.eq("b", [1.0], [1.0, 1.0])
R.eq("c", [np.nan], [1.0])
R.ok("d", [True, False])
R.finite("e", (np.inf,))
R.same("f", np.float64(1), np.float32(1))
R.raises("g", lambda: 1)
try:
    R.call("h", lambda: 1 / 0)
except core.CaseAbort:
    pass
x = np.zeros(3)
R.call("i", lambda a: a.__setitem__(0, 1.0), x)
assert set(R.vkeys) == set("abcdefg") | {"raised:h", "input-mutated:i"}, R.vkeys
n = sum(R.vkeys.values())
R.eq("ok", [1.0, 0.0], [1.0 + 1e-9, 0.0], rtol=1e-7)
R.ok("ok", [True, True])
R.finite("ok", (1.0, None))
assert sum(R.vkeys.values()) == n
# the reference models against closed forms
assert abs(ref.trapz([0, 1, 3], [0, 1, 3]) - 4.5) < 1e-14
assert abs(ref.age0(1.0, -1.0, 0.0, 0.7) - 2 / 3 * ref.hubble_time(0.7)) < 1e-6
assert abs(ref.comoving_distance(3.0, 1.0, -1.0, 0.0, 0.7) - 2 * ref.C_KMS / 70 * 0.5) < 1e-6
assert abs(ref.tw_cdf(0.0) - 0.5) < 1e-15 and ref.tw_cdf(3.0) == 1.0
print("self-check passed")

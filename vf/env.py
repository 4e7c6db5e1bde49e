"""Brings up TensorFlow and tf_encrypted from /repo for one worker process."""
import os

os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
import logging
import warnings

warnings.filterwarnings("ignore")

N_CPU_DEVICES = 8

import numpy as np  # noqa: E402
import tensorflow as tf  # noqa: E402

tf.get_logger().setLevel(logging.ERROR)
tf.config.threading.set_inter_op_parallelism_threads(2)
tf.config.threading.set_intra_op_parallelism_threads(int(os.environ.get("VF_INTRA", "3")))
_cpu = tf.config.list_physical_devices("CPU")[0]
tf.config.set_logical_device_configuration(
    _cpu, [tf.config.LogicalDeviceConfiguration() for _ in range(N_CPU_DEVICES)]
)

import tfe_tf_compat  # noqa: E402,F401
import tf_encrypted as tfe  # noqa: E402

from . import core  # noqa: E402

assert os.path.realpath(tfe.__file__).startswith(os.path.realpath(core.REPO)), tfe.__file__
logging.getLogger("tf_encrypted").setLevel(logging.CRITICAL)

from tf_encrypted.config import Config, LocalConfig, Player  # noqa: E402
from tf_encrypted.protocol import protocol as _protomod  # noqa: E402

_rng_state = {"seed": 0, "ctr": 0, "on": False}


class _ModuleProxy:
    """The compiled secure-random module with a reproducible source of seeds.

    Only the entropy source is replaced (eager mode): the expansion of a seed to
    random values is still the code under test.
    """

    def __init__(self, real):
        self.__dict__["_real"] = real

    def __getattr__(self, k):
        return getattr(self._real, k)

    def secure_seed(self, name=None):
        if not _rng_state["on"] or not tf.executing_eagerly():
            return self._real.secure_seed(name=name)
        real = self._real.secure_seed(name=name)  # shape and dtype of the real thing
        _rng_state["ctr"] += 1
        g = np.random.Generator(
            np.random.PCG64([_rng_state["seed"], _rng_state["ctr"]])
        )
        info = np.iinfo(real.dtype.as_numpy_dtype)
        v = g.integers(info.min, info.max, size=real.shape, dtype=real.dtype.as_numpy_dtype,
                       endpoint=True)
        return tf.constant(v)


def _install():
    from tf_encrypted.operations.secure_random import secure_random as sr

    mod = getattr(sr, "secure_random_module", None)
    if mod is not None and not isinstance(mod, _ModuleProxy):
        sr.secure_random_module = _ModuleProxy(mod)


_install()


def deterministic(on):
    """Turn the reproducible seed source on or off (off: real entropy)."""
    _rng_state["on"] = on


def clear_memo():
    nodes = getattr(_protomod, "nodes", None)
    if isinstance(nodes, dict):
        nodes.clear()


def begin_case(seed):
    _rng_state.update(seed=seed, ctr=0, on=True)
    clear_memo()


def end_case():
    clear_memo()


class MultiDeviceConfig(LocalConfig):
    """A local config with every player on a logical CPU device of its own."""

    def add_player(self, name):
        index = len(self._players)
        player = Player(
            name=name, index=index,
            device_name="/job:localhost/replica:0/task:0/device:CPU:%d"
            % (index % N_CPU_DEVICES),
        )
        self._players.append(player)
        return player


def use_config(debug=False, multi=False, names=None):
    cls = MultiDeviceConfig if multi else LocalConfig
    cfg = cls(names or ["server0", "server1", "server2"], debug_mode=debug)
    tfe.set_config(cfg)
    return cfg


def native(x):
    """Reveal to numpy."""
    if hasattr(x, "reveal"):
        x = x.reveal()
    if hasattr(x, "to_native"):
        x = x.to_native()
    return np.asarray(x)

"""Build and run RETURNN TF (net dict) networks, deterministic parameters by name. TF graph mode, CPU."""
from __future__ import annotations
import os
import zlib
import numpy


def init(behavior_version=None):
    import warnings
    import logging

    warnings.simplefilter("ignore")
    os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"
    os.environ["TF_USE_LEGACY_KERAS"] = "1"
    os.environ["CUDA_VISIBLE_DEVICES"] = ""
    logging.getLogger("tensorflow").setLevel(logging.ERROR)
    from vlib import ds as D

    D.quiet_log()
    import tensorflow as tf  # noqa
    import returnn.tf.network  # noqa
    import returnn.tf.layers.rec  # noqa
    import returnn.util.basic as util
    from returnn.tf.native_op import OpMaker  # noqa

    if behavior_version is None:
        behavior_version = util.BehaviorVersion._latest_behavior_version
    util.BehaviorVersion.set_min_behavior_version(behavior_version)
    util.BackendEngine.select_engine(engine=util.BackendEngine.TensorFlowNetDict)  # as the entry point does
    tf.get_logger().setLevel("ERROR")


def param_value(name, shape, scale=0.6):
    """deterministic, by the name below the outer layer and the shape"""
    rs = numpy.random.RandomState(zlib.crc32(("%s %s" % (name, list(shape))).encode()))
    return (rs.randn(*shape) * scale).astype("float32") if shape else numpy.float32(rs.randn() * scale)


class Net:
    """one graph + session"""

    def __init__(self, net_dict, extern_data, *, train=False, search=False, config=None, eval_flag=False):
        import tensorflow as tf
        import returnn.tf.compat as tf_compat
        from returnn.config import Config, global_config_ctx
        from returnn.tf.network import TFNetwork

        self.tf, self.v1 = tf, tf_compat.v1
        self.graph = tf.Graph()
        self.config = Config({"extern_data": extern_data, **(config or {})})
        config = self.v1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=2)
        # The remapper of TF 2.16 fuses x * sigmoid(x) and then loses the sigmoid when that is fetched too.
        config.graph_options.rewrite_options.remapping = 2  # off
        self.session = self.v1.Session(graph=self.graph, config=config)
        with self.graph.as_default(), self.session.as_default(), global_config_ctx(self.config):
            self.v1.set_random_seed(42)
            self.net = TFNetwork(config=self.config, train_flag=train, eval_flag=eval_flag, search_flag=search)
            self.net.construct_from_dict(net_dict)

    def close(self):
        self.session.close()

    def params(self):
        """:return: name -> variable"""
        return {v.name[:-2]: v for v in self.net.get_params_list()}

    def set_params(self, *, scale=0.6, func=None):
        """:return: dict name -> value"""
        vals = {}
        with self.graph.as_default(), self.session.as_default():
            self.net.initialize_params(session=self.session)
            for name, v in self.params().items():
                shape = tuple(v.shape.as_list())
                vals[name] = func(name, shape) if func else param_value(name, shape, scale)
                v.load(vals[name].reshape(shape) if shape else vals[name], self.session)
        return vals

    def feed(self, data):
        """data: key -> (array, lens or None)"""
        fd = {}
        n = None
        for key, (a, lens) in data.items():
            d = self.net.extern_data.data[key]
            fd[d.placeholder] = a
            n = len(a)
            if lens is not None:
                fd[d.size_placeholder[0]] = lens
        bd = self.net.extern_data.get_batch_info().dim
        if not isinstance(bd, int):
            fd[bd] = n
        return fd

    def run(self, fetches, data):
        with self.graph.as_default():
            return self.session.run(fetches, feed_dict=self.feed(data))

    def layer(self, name):
        return self.net.get_layer(name)

    def out(self, name):
        """:return: fetch dict(value, lens) of a layer output, batch major"""
        with self.graph.as_default():
            o = self.layer(name).output
            if o.have_batch_axis() and o.batch_dim_axis != 0:
                o = o.copy_as_batch_major()
            if o.time_dim_axis is not None and o.time_dim_axis != 1 and o.have_batch_axis():
                o = o.copy_with_time_dim_axis(1)
            res = {"value": o.placeholder}
            if o.time_dim_axis is not None and o.is_time_axis_dynamic():
                res["lens"] = o.get_sequence_lengths()
            return res


def pad(seqs, *, rng_np, dtype="float32", garbage=True, extra=0):
    """list of arrays -> (padded, lens)"""
    lens = numpy.array([len(s) for s in seqs], dtype="int32")
    t = max(int(lens.max()), 0) + extra
    shape = (len(seqs), t) + seqs[0].shape[1:]
    if dtype.startswith("float"):
        a = (rng_np.randn(*shape) * 30).astype(dtype) if garbage else numpy.zeros(shape, dtype)
    else:
        a = numpy.zeros(shape, dtype)
    for i, s in enumerate(seqs):
        a[i, : len(s)] = s
    return a, lens

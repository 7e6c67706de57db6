"""Import TensorFlow + HGQ from /repo's working tree.

clean=True keeps QKeras (and with it tf_keras) out of the process: with tf_keras loaded next to keras 2.15, keras'
string lookup ('relu', class names in .keras files) resolves to tf_keras objects, an artefact of this sandbox's
version mix and not of HGQ.
"""
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')


def load(clean=True, eager=True):
    os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
    os.environ['CUDA_VISIBLE_DEVICES'] = '-1'
    os.environ['TF_ENABLE_ONEDNN_OPTS'] = '0'
    os.environ['OMP_NUM_THREADS'] = '1'
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(REPO, 'src'))
    if clean:
        sys.modules['qkeras'] = None
    warnings.simplefilter('ignore')
    import hgq_tf_compat  # noqa: F401
    import tensorflow as tf
    tf.get_logger().setLevel('ERROR')
    tf.config.threading.set_inter_op_parallelism_threads(1)
    tf.config.threading.set_intra_op_parallelism_threads(1)
    tf.config.run_functions_eagerly(eager)
    import HGQ
    src = os.path.realpath(HGQ.__file__)
    assert src.startswith(os.path.realpath(REPO) + os.sep), src
    warnings.simplefilter('ignore')
    return HGQ

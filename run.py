"""Entry point: run.py <PROPERTY> [--replay FILE] [--sub NAME] [--thorough|--quick] | --selftest"""
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")  # hypothesis only
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")


def run() -> int:
    import importlib
    import logging

    logging.disable(logging.CRITICAL)
    import megatron.energon as m

    assert m.__file__.startswith(REPO + "/src/"), m.__file__
    import torch

    torch.set_num_threads(1)
    from vp import harness

    if sys.argv[1] == "--selftest":
        import hypothesis
        from vp import gen, lib, model  # noqa: F401

        print("megatron.energon", m.__file__, "hypothesis", hypothesis.__version__)
        return 0
    if sys.argv[1] == "--serve":
        from vp import other

        return other.serve()
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    return harness.main(mod.CHECK, sys.argv[2:])


if __name__ == "__main__":
    sys.exit(run())

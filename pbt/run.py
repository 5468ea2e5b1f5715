"""Entry point: run one property's check, replay a saved case, or self-test."""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
HYPO = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def main(argv):
    if len(argv) > 1 and argv[0] == "replay":
        argv[1] = os.path.abspath(argv[1])
    work = tempfile.mkdtemp(prefix="pbt.")
    try:
        mpl = os.path.join(work, "mpl")
        os.makedirs(mpl)
        src = "/opt/vp/mplconfig"
        if os.path.isdir(src):
            for name in os.listdir(src):
                if name.endswith(".json"):
                    shutil.copy(os.path.join(src, name), mpl)
        os.environ["MPLCONFIGDIR"] = mpl
        cwd = os.path.join(work, "cwd")
        os.makedirs(cwd)
        os.chdir(cwd)  # pyswarms writes report.log into the working directory
        sys.path.insert(0, HERE)
        sys.path.insert(0, REPO)
        sys.path.append(HYPO)  # last: numpy etc. come from the project's venv
        import core

        core.CONF.update(verif=VERIF, repo=REPO, work=work, cwd=cwd)
        if not argv:
            print(__doc__)
            return 2
        if argv[0] == "selftest":
            return core.selftest()
        if argv[0] == "replay":
            return core.replay(argv[1])
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
        only = argv[2:]  # facet names, for development
        return core.run_property(argv[0], tier, only)
    finally:
        os.chdir("/")
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

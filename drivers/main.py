import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import check, tlc
MODULES = dict(C01="fieldgen", C02="fieldgen", C05="fieldgen", C03="fieldvals", C04="fieldvals", C12="fieldvals", C06="kernel", C07="kernel", C08="sampler", C09="lowfreq", C10="lowfreq", C11="lowfreq", C13="problem", C14="problem", C27="construct", C25="export", C26="export", C23="data", C24="data", C19="spectra", C20="spectra", C21="spectra", C22="spectra", C15="calib", C18="calib", C16="loss", C17="loss", C28="plots", C29="runlog", C30="schedule")
if __name__ == "__main__":
    pid = sys.argv[1]
    if pid == "setup":
        tlc.compile_java(force=True)
        os.makedirs(os.path.join(tlc.ROOT, "evidence"), exist_ok=True)
        sys.exit(0)
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    import atexit, shutil, tempfile
    d = tempfile.mkdtemp(prefix="verif_cwd_")
    parent = os.getpid()
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True) if os.getpid() == parent else None)
    os.makedirs(d + "/mpl")
    for x in (os.listdir("/opt/vp/mplconfig") if os.path.isdir("/opt/vp/mplconfig") else []):
        if x.startswith("fontlist"):
            shutil.copy("/opt/vp/mplconfig/" + x, d + "/mpl/" + x)
    os.environ["MPLCONFIGDIR"] = d + "/mpl"
    os.chdir(d)
    m = importlib.import_module("drivers." + MODULES[pid])
    sys.exit(check.main(pid, getattr(m, pid)))

"""Import qampy from the repository's working tree: sources compiled afresh (no .pyc is read or
written), native kernels taken from the given build."""
import importlib.abc, importlib.machinery, importlib.util, json, os, sys

REPO = os.environ.get("VERIF_REPO", "/repo")

class _Src(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        return self.source_to_code(self.get_data(self.path), self.path)

class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, native):
        self.native = native
    def find_spec(self, name, path=None, target=None):
        if name != "qampy" and not name.startswith("qampy."):
            return None
        if name in self.native:
            p = self.native[name]
            return importlib.util.spec_from_file_location(name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))
        base = os.path.join(REPO, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, f, loader=_Src(name, f), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=_Src(name, base + ".py"))
        return None

def install(native=None):
    if native is None:
        native = json.loads(os.environ["VERIF_NATIVE"])
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder(native))
    import warnings
    warnings.simplefilter("ignore")
    import numpy
    numpy.seterr(all="ignore")

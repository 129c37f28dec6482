"""Import hrosailing from /repo's working tree, always compiled from source.

No .pyc is read or written for hrosailing, so an edit made within the same
second as an earlier build can never be missed, and /repo stays untouched.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("VF_REPO", "/repo")


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "hrosailing" and not fullname.startswith("hrosailing."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(fullname, init),
                submodule_search_locations=[base],
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=_Loader(fullname, base + ".py")
            )
        return None


def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())
    sys.path.insert(0, REPO)
    import hrosailing

    real = os.path.realpath(hrosailing.__file__)
    assert real.startswith(os.path.realpath(REPO) + os.sep), real
    return hrosailing

"""Builds the extension modules of /repo's working tree and makes `primate` importable from it.

The sources are /repo's own; nothing is written there. Built objects go to /verif/.cache (ignored by git), named by the
hash of everything they were built from, so a change in the tree is always rebuilt."""
import hashlib, importlib, importlib.abc, importlib.machinery, importlib.util, os, subprocess, sys, types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "primate")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
TOOLS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
EIGEN = "/usr/include/eigen3"


class BuildError(Exception):
	pass


def _sha(*parts):
	h = hashlib.sha256()
	for p in parts:
		h.update(p if isinstance(p, bytes) else str(p).encode())
		h.update(b"\0")
	return h.hexdigest()[:24]


def _read(*paths):
	return b"\0".join(open(p, "rb").read() for p in paths)


def _includes():
	import sysconfig, numpy
	return ["-I" + sysconfig.get_path("include"), "-I" + numpy.get_include()]


def header_files():
	d = os.path.join(SRC, "include")
	return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".h")]


def _run(cmd, cwd, what):
	r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
	if r.returncode:
		raise BuildError(f"{what} does not build: {' '.join(cmd)}\n{r.stdout[-4000:]}")


def _finish(tmp, out):
	os.replace(tmp, out)
	return out


def build_pythran(name):
	import pythran
	src = os.path.join(SRC, name + ".py")
	out = os.path.join(CACHE, f"{name}-{_sha(_read(src, __file__))}.so")
	if os.path.exists(out):
		return out
	os.makedirs(CACHE, exist_ok=True)
	d = os.path.join(CACHE, f"tmp-{name}-{os.getpid()}")
	os.makedirs(d, exist_ok=True)
	try:
		cpp, so = os.path.join(d, name + ".cpp"), os.path.join(d, name + ".so")
		_run(["/opt/venv/bin/pythran", "-E", src, "-o", cpp], d, name)
		_run(["g++", "-std=c++20", "-O2", "-fPIC", "-shared", "-fvisibility=hidden", "-w", "-DENABLE_PYTHON_MODULE",
		      "-D__PYTHRAN__=3", *_includes(), "-I" + pythran.get_include(), cpp, "-o", so], d, name)
		return _finish(so, out)
	finally:
		subprocess.run(["rm", "-rf", d])


def build_lanczos():
	import pybind11
	src = os.path.join(SRC, "_lanczos.cpp")
	out = os.path.join(CACHE, f"_lanczos-{_sha(_read(src, *header_files(), __file__))}.so")
	if os.path.exists(out):
		return out
	os.makedirs(CACHE, exist_ok=True)
	tmp = out + f".{os.getpid()}.tmp"
	_run(["clang++", "-std=c++20", "-O1", "-fPIC", "-shared", "-fvisibility=hidden", "-w", "-I" + EIGEN,
	      "-I" + os.path.join(SRC, "include"), *_includes(), "-I" + pybind11.get_include(), src, "-o", tmp], CACHE, "_lanczos")
	return _finish(tmp, out)


def build_driver(name, extra=()):
	"""Compiles /verif/harness/native/<name>.cpp against /repo's headers with address and undefined-behaviour checks."""
	src = os.path.join(VERIF, "harness", "native", name + ".cpp")
	out = os.path.join(CACHE, f"{name}-{_sha(_read(src, *header_files(), __file__), *extra)}")
	if os.path.exists(out):
		return out
	os.makedirs(CACHE, exist_ok=True)
	tmp = out + f".{os.getpid()}.tmp"
	_run(["clang++", "-std=c++20", "-O1", "-g", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
	      "-fno-sanitize-recover=all", *extra, "-I" + EIGEN, "-I" + os.path.join(SRC, "include"), src, "-o", tmp], CACHE, name)
	return _finish(tmp, out)


def build(needs, drivers=()):
	"""needs: subset of {"tqli", "fttr", "_lanczos"}. Returns {module: path}. A driver that does not build against the headers
	(their interface may have changed) maps to an empty path: its checks decide through the extension alone."""
	from concurrent.futures import ThreadPoolExecutor
	with ThreadPoolExecutor(6) as ex:
		jobs = {n: ex.submit(build_lanczos) if n == "_lanczos" else ex.submit(build_pythran, n) for n in needs}
		djobs = {d: ex.submit(build_driver, d) for d in drivers}
		out = {n: j.result() for n, j in jobs.items()}
		for d, j in djobs.items():
			try:
				out["driver:" + d] = j.result()
			except BuildError as e:
				print(f"note: driver {d} does not build against this tree: {str(e)[-500:]}", file=sys.stderr)
				out["driver:" + d] = ""
		return out


class _Finder(importlib.abc.MetaPathFinder):
	def __init__(self, sos):
		self.sos = sos

	def find_spec(self, fullname, path, target=None):
		if not fullname.startswith("primate."):
			return None
		n = fullname[len("primate."):]
		if n in self.sos:
			loader = importlib.machinery.ExtensionFileLoader(fullname, self.sos[n])
			return importlib.util.spec_from_file_location(fullname, self.sos[n], loader=loader)
		if n in ("tqli", "fttr", "_lanczos"):
			return importlib.machinery.ModuleSpec(fullname, _Stub(n))
		return None


class _Stub(importlib.abc.Loader):
	"""Stands in for an extension that the property at hand never calls; any use of it is an error of the check."""
	def __init__(self, n):
		self.n = n

	def create_module(self, spec):
		m = types.ModuleType(spec.name)
		def __getattr__(attr):
			if attr.startswith("__"):
				raise AttributeError(attr)
			def f(*a, **k):
				raise RuntimeError(f"harness: extension {self.n} was not built for this check")
			return f
		m.__getattr__ = __getattr__
		return m

	def exec_module(self, m):
		pass


def setup_imports(sos):
	"""Makes `import primate.X` load /repo's sources and the built extensions. Call before any import of primate."""
	assert "primate" not in sys.modules
	sys.dont_write_bytecode = True
	src = os.path.join(REPO, "src")
	sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.abspath("/repo/src")]
	sys.path.insert(0, src)
	if TOOLS_SITE not in sys.path:
		sys.path.append(TOOLS_SITE)
	sys.meta_path.insert(0, _Finder(dict(sos)))
	import importlib.metadata as im
	orig = im.version
	def version(name):
		try:
			return orig(name)
		except im.PackageNotFoundError:
			if name == "scikit-primate":
				return "0"
			raise
	im.version = version
	import primate
	assert os.path.abspath(primate.__file__).startswith(SRC + os.sep), primate.__file__
	im.version = orig

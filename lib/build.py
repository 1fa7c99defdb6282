"""Build the falwa package privately from /repo's current working tree."""
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


def build(fortran_args=""):
    """Return (scratch_dir, package_parent_dir). The caller removes scratch_dir."""
    scratch = tempfile.mkdtemp(prefix="verif-falwa-")
    try:
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(scratch, "src"),
                        ignore=shutil.ignore_patterns("__pycache__", "*.so"))
        shutil.copy(os.path.join(REPO, "meson.build"), scratch)
        env = dict(os.environ)
        env.update(PATH="/opt/venv/bin:" + env.get("PATH", "/usr/bin:/bin"),
                   CC="/usr/bin/gcc", FC="/usr/bin/gfortran", PYTHONDONTWRITEBYTECODE="1",
                   DESTDIR=os.path.join(scratch, "inst"))
        setup = ["meson", "setup", "-Dbuildtype=release"]
        if fortran_args:
            setup.append("-Dfortran_args=" + repr(fortran_args.split(",")))
        for cmd in (setup + ["bd", "."], ["ninja", "-C", "bd"],
                    ["meson", "install", "-C", "bd", "--no-rebuild", "-q"]):
            p = subprocess.run(cmd, cwd=scratch, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
        parent = os.path.join(scratch, "inst/usr/local/lib/python3/dist-packages")
        # meson.build installs only some modules; the rest are plain Python files
        src = os.path.join(REPO, "src", "falwa")
        dst = os.path.join(parent, "falwa")
        if not os.path.isdir(dst):
            found = [d for d, _, _ in os.walk(os.path.join(scratch, "inst")) if d.endswith("/falwa")]
            if not found:
                raise BuildError("installed package not found")
            dst = found[0]
            parent = os.path.dirname(dst)
        for name in os.listdir(src):
            if name.endswith(".py") and not os.path.exists(os.path.join(dst, name)):
                shutil.copy(os.path.join(src, name), dst)
        if not os.path.exists(os.path.join(dst, "legacy", "beta_version.py")):
            shutil.copytree(os.path.join(src, "legacy"), os.path.join(dst, "legacy"), dirs_exist_ok=True,
                            ignore=shutil.ignore_patterns("__pycache__"))
        return scratch, parent
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise

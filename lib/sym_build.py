"""Builds the tracked instantiation of /repo's current code (a binary that runs scenarios)."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import view  # noqa: E402

VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, "build")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


HOOKS = {"paillier/ring_pedersen.rs": """
#[cfg(synedrion_verif_hooks)]
impl<P: PaillierParams> RPSecret<P> {
    pub(crate) fn verif_new(primes: SecretPrimesWire<P>, lambda: SecretUnsigned<P::Uint>) -> Self {
        Self { primes: primes.into_precomputed(), lambda }
    }
}
"""}


BASE = ["rec", "int", "crv", "par", "scen"]
EXTRA = {"core": ["zk", "ops", "secrets", "sig", "bip"], "full": ["bip", "ents", "prot"]}


def prepare(kind="core", mods=()):
    """The binary, with access to private constructors if they still look as expected."""
    err = None
    for ms, hooks in ((EXTRA[kind], True), (EXTRA[kind], False), (list(mods), True), (list(mods), False)):
        try:
            return build(kind, hooks, ms)
        except BuildError as e:
            err = err or e
    raise err


def modfile(out, mods):
    t = "".join('#[path = "%s"]\npub mod %s;\n' % (os.path.join(VERIF, "sym", m + ".rs"), m) for m in BASE + mods)
    t += "pub fn extra() -> std::vec::Vec<(&'static str, scen::Scen)> {\n    let mut t = std::vec::Vec::new();\n"
    t += "".join("    t.extend(%s::scenarios());\n" % m for m in mods) + "    t\n}\n"
    p = os.path.join(out, "verif_sym.rs")
    view.wr(p, t)
    return p


def build(kind, hooks, mods):
    out = os.path.join(BUILD, "sview" if kind == "core" else "sview_" + kind)
    main = os.path.join(out, "main.rs")
    os.makedirs(out, exist_ok=True)
    suffix = "" if kind == "core" else "_" + kind
    view.wr(main, "fn main() { synedrion_sym%s::verif_sym::scen::main() }\n" % suffix)
    view.make(out, kind=kind, inject=HOOKS, mounts=[("verif_sym", modfile(out, mods), None)],
              lib_edit=lambda t: t + "\nextern crate std;\n",
              extra_deps='serde_json = "1"\nnum-traits = { version = "0.2", default-features = false }\n',
              extra_toml='\n[[bin]]\nname = "symrun' + suffix + '"\npath = "main.rs"\n[profile.dev]\nopt-level = 1\n'
                         'debug = "line-tables-only"\noverflow-checks = true\n[profile.dev.package."*"]\nopt-level = 2\n',
              crate_name="synedrion_sym" + suffix)
    e = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=os.path.join(BUILD, "sym_target"))
    e["RUSTFLAGS"] = "--cfg synedrion_verif -Awarnings" + (" --cfg synedrion_verif_hooks" if hooks else "")
    p = subprocess.run(["cargo", "build", "--offline", "--features", "dev,bip32", "--bin", "symrun" + suffix], cwd=out, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("the tracked instantiation does not build:\n" + p.stdout[-6000:])
    return os.path.join(BUILD, "sym_target", "debug", "symrun" + suffix)


if __name__ == "__main__":
    print(prepare(*sys.argv[1:]))

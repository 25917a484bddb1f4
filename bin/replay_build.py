"""Builds the replay program from /repo's current sources (a scratch copy in /verif/build)."""
import os, re, shutil, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
V = os.path.realpath(V)
B = os.path.join(V, "build", "replay")


def build(repo="/repo"):
    src = os.path.join(B, "src")
    if os.path.isdir(src):
        shutil.rmtree(src)
    shutil.copytree(os.path.join(repo, "src"), src)
    for root, _, files in os.walk(src):
        for f in files:
            if not f.endswith(".rs"):
                continue
            p = os.path.join(root, f)
            t = open(p).read()
            # what the harness calls must be visible to it
            t = re.sub(r"(?m)^(mod|fn|async fn|struct|enum|const|static) ", r"pub(crate) \1 ", t)
            if os.path.relpath(p, src) == "main.rs":
                t = re.sub(r"async fn main\(\)", "async fn broker_main()", t)
                t = t.replace("set_port(1883)", 'set_port(std::env::var("VP_PORT").ok().and_then(|p| p.parse().ok()).unwrap_or(1883))')
                t = t.replace("LevelFilter::Trace", "LevelFilter::Off")
                t += "\n#[path = \"%s/replay/src/mod.rs\"]\nmod vp;\nfn main() { vp::run() }\n" % V
            open(p, "w").write(t)
    c = open(os.path.join(repo, "Cargo.toml")).read()
    c = re.sub(r'(?m)^tokio = .*$', 'tokio = { version = "1.37.0", features = ["full", "test-util"] }', c)
    c += "\n[workspace]\n[profile.dev]\nopt-level = 1\ndebug = false\noverflow-checks = true\n"
    open(os.path.join(B, "Cargo.toml"), "w").write(c)
    shutil.copy(os.path.join(repo, "Cargo.lock"), os.path.join(B, "Cargo.lock"))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, "target"), CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
    r = subprocess.run(["cargo", "build", "--offline"], cwd=B, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (os.path.join(B, "target", "debug", "mqtt_broker") if r.returncode == 0 else None), r.stdout


if __name__ == "__main__":
    exe, log = build(*(sys.argv[1:2]))
    print(exe or log[-6000:])
    sys.exit(0 if exe else 1)

"""Check that the toolchains and crates the checks need are present (each check builds what it needs itself)."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
for cfg, c in engine.CONFIGS.items():
    p = subprocess.run(["rustc", "--version"], env=engine.build_env(cfg), capture_output=True, text=True)
    print(cfg, p.stdout.strip(), p.stderr.strip())
    if p.returncode:
        sys.exit(1)
    p = subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=engine.HARNESS, env=engine.build_env(cfg),
                       capture_output=True, text=True)
    if p.returncode:
        print(p.stderr)
        sys.exit(1)

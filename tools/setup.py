import subprocess, sys
for cmd in (["python3-vt", "-c", "import z3"], ["/opt/venv/bin/python", "-c", "import lxml"], ["cvc5", "--version"]):
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL)
print("ready")

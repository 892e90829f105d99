"""Write known-findings.txt: the defects found and repaired, each with its property and commit."""
import subprocess

BASE = "dc98a55"
OF = """
C01 f069418 3d1df18 bc2d928 695e8af 46a594e
C02 59ddd0d 5495a4f
C08 46f5c30 3a29dc8 2d6b890 f7f73e1 159c5d6 e0a7f8f
C07 036237a 2034f87 599af3c
C10 9c539bf
C11 47e1908 cf16e1e 27e5b81
C12 0306381
C13 4c9d78a 3255015 4e8fa15 85eed71 18aaa33 b9b4938 a375041 efaf984
C14 121a1a8 0fb99ec
C16 620e25b 9e97c80 56de30d
C17 d156a3b
C18 c8bf83f d247065 d3c1547 44c5ce4
C15 c7e0d30 97d5e16 b289926 c1fe123 29d440b
"""


def main():
    of = {c: l.split()[0] for l in OF.strip().splitlines() for c in l.split()[1:]}
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", BASE + "..HEAD"], capture_output=True, text=True, check=True).stdout
    fixed, other = [], []
    for l in log.splitlines():
        h, what = l.split(" ", 1)
        what = what.split("fix: ", 1)[-1]
        if h in of:
            fixed.append("fixed: property=%s %s %s" % (of[h], h, what))
        else:
            other.append("# repaired, no property claimed: %s %s" % (h, what))
    with open("/verif/known-findings.txt", "w") as f:
        f.write("# Genuine defects of diffpy.srmise. A line 'known: property=<id> <obligation> | <what fails>' would record one that is not repaired; there is none.\n")
        f.write("\n".join(sorted(fixed) + other) + "\n")


main()
